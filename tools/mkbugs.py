"""Builds /verif/seeded from tools/bugs/*.py; verifies each in a scratch copy of /repo.
usage: mkbugs.py [id...]"""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/bugwt'
RS_DEMO = '''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
sed "s#REPO#$repo#" "$here/demo.rs" > "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
blitstr = { path = "$repo" }
[workspace]
[profile.dev]
opt-level = 1
T
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" cargo run --quiet --offline
'''
PRE = '''#![allow(dead_code, unused_imports)]
use blitstr::*;
fn get(fb: &FrBuf, x: usize, y: usize) -> u32 { fb[y * WORDS_PER_LINE + (x >> 5)] >> (x & 31) & 1 }
fn white() -> FrBuf { let mut fb = new_fr_buf(); for w in fb.iter_mut() { *w = 0xffffffff; } fb }
fn black() -> FrBuf { let mut fb = new_fr_buf(); for w in fb.iter_mut() { *w = 0; } fb }
fn noise() -> FrBuf { let mut fb = new_fr_buf(); let mut s: u32 = 12345; for w in fb.iter_mut() { s ^= s << 13; s ^= s >> 17; s ^= s << 5; *w = s; } fb }
fn paint(fb: &mut FrBuf, clip: ClipRect, x: usize, y: usize, lh: usize, st: GlyphStyle, s: &str) -> Cursor { let mut c = Cursor::new(x, y, lh); paint_str(fb, clip, &mut c, st, s); c }
fn same(a: &FrBuf, b: &FrBuf) -> bool { a.iter().zip(b.iter()).all(|(x, y)| x == y) }
'''

def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def tests():
    """names of failing tests in the scratch copy"""
    out = ''
    for d in ('', '/wasm_demo'):
        r = sh('cargo test --offline %s --no-fail-fast 2>&1' % ('--workspace' if not d else '-- --test-threads 1'), WT + d)
        out += r.stdout
        if 'error' in r.stdout and 'could not compile' in r.stdout:
            return 'does not compile', out
    base = json.load(open('/opt/vp/BASELINE.json'))
    bad = [l for l in out.split('\n') if l.startswith('test ') and l.rstrip().endswith('FAILED')]
    return bad, out

def main():
    bugs = {}
    for f in sorted(os.listdir(os.path.join(V, 'tools', 'bugs'))):
        if f.endswith('.py'):
            bugs.update(runpy.run_path(os.path.join(V, 'tools', 'bugs', f))['BUGS'])
    want = sys.argv[1:] or [b for b in bugs if not os.path.exists(os.path.join(V, 'seeded', b, 'patch.diff'))]
    if not os.path.exists(WT):
        sh('cp -a /repo %s' % WT)
    for b in want:
        d = bugs[b]
        sh('git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git clean -fdq', WT)
        ok = True
        for f, old, new in d['edits']:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b, 'edit does not apply uniquely:', f, s.count(old), old[:60]); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        diff = sh('git diff', WT).stdout
        bad, log = tests()
        if bad:
            print(b, 'TESTS', bad if isinstance(bad, str) else bad[:4]); continue
        if any(f.startswith('codegen/') for f, _, _ in d['edits']):
            r = sh('go build -buildvcs=false -o /tmp/bugwt.cg . ; rm -f /tmp/bugwt.cg', WT + '/codegen')
            if 'error' in r.stdout or './' in r.stdout:
                print(b, 'go build', r.stdout[:300]); continue
        t = '/tmp/bugdemo'
        shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        if 'rs' in d:
            open(t + '/demo.rs', 'w').write(PRE + d.get('extra', '') + 'fn main() {\n' + d['rs'].strip('\n') + '\n}\n')
            open(t + '/demo.sh', 'w').write(RS_DEMO)
        for n, s in d.get('files', {}).items():
            open(t + '/' + n, 'w').write(s)
        os.chmod(t + '/demo.sh', 0o755)
        r1 = sh('bash %s/demo.sh' % t, WT, 300)
        sh('git checkout -q -- .', WT)
        r0 = sh('bash %s/demo.sh' % t, WT, 300)
        if r0.returncode or not r1.returncode:
            print(b, 'DEMO clean', r0.returncode, r0.stdout[-400:], 'buggy', r1.returncode, r1.stdout[-300:]); continue
        o = os.path.join(V, 'seeded', b)
        shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        for n in os.listdir(t):
            shutil.copy(t + '/' + n, o + '/' + n)
        open(o + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(o + '/meta.json', 'w'), indent=1)
        print(b, 'ok')

main()
