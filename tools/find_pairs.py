"""Lists the hash collisions (known finding of C09): pairs of characters that form no listed cluster
but whose 2-codepoint hash equals a table entry of the first character's block.  Exact inversion of
murmur3, from the committed font files; the lines go into known-findings.txt.  Not used by a check."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import oracle, native
M = 0xffffffff
rotl = lambda x, r: (x << r | x >> (32 - r)) & M
inv = lambda a: pow(a, -1, 1 << 32)
C1, C2 = 0xcc9e2d51, 0x1b873593
def mix(k): return rotl(k * C1 & M, 15) * C2 & M
def unmix(k): return rotl(k * inv(C2) & M, 17) * inv(C1) & M
def step(h, k): return (rotl(h ^ mix(k), 13) * 5 + 0xe6546b64) & M
def fin(h, n):
    h ^= n; h ^= h >> 16; h = h * 0x85ebca6b & M; h ^= h >> 13; h = h * 0xc2b2ae35 & M; return h ^ h >> 16
def unfin(h, n):
    h ^= h >> 16; h = h * inv(0xc2b2ae35) & M; h ^= h >> 13 ^ h >> 26; h = h * inv(0x85ebca6b) & M; h ^= h >> 16; return h ^ n
def h(cl, seed):
    x = seed
    for c in cl: x = step(x, ord(c))
    return fin(x, len(cl.encode()))
F = oracle.fonts()
def blocks(name):
    src = open('/repo/src/fonts/%s.rs' % name).read()
    body = src[src.index('match first_char'):]
    body = body[:body.index('_ => Err')]
    out = []
    for m in re.finditer(r'(0x[0-9A-F]+)\.\.=(0x[0-9A-F]+) => \{(.*?)\n        \}', body, re.S):
        out.append((int(m.group(1), 16), int(m.group(2), 16), [int(x) for x in re.findall(r'find_\w+\(cluster, (\d+)\)', m.group(3))]))
    return out
def run(name, every=False):
    f = F[name]; res = []
    for lo, hi, lims in blocks(name):
        if 2 not in lims and not any(l > 2 for l in lims): continue
        tab = {h(c, f.seed): c for c in f.glyph if lo <= ord(c[0]) <= hi}
        if 2 not in lims: continue
        for c1 in range(lo, hi + 1):
            if not every and chr(c1) not in {c[0] for c in f.glyph}: continue
            s1 = step(f.seed, c1)
            for K, g in tab.items():
                for L in (1, 2, 3, 4):
                    y = unfin(K, len(chr(c1).encode()) + L)
                    y = (y - 0xe6546b64) * inv(5) & M
                    x = unmix(rotl(y, 19) ^ s1)
                    if x < 0x110000 and not 0xd800 <= x < 0xe000 and len(chr(x).encode()) == L and chr(c1) + chr(x) not in f.glyph:
                        res.append((chr(c1) + chr(x), g))
    return res
def run_long(name):
    """a listed cluster of n >= 2 codepoints followed by a supported character, hashed with limit n + 1"""
    f = F[name]; res = []
    sup = {ord(c) for g in F.values() for k in g.glyph for c in k}
    for lo, hi, lims in blocks(name):
        tab = {h(c, f.seed): c for c in f.glyph if lo <= ord(c[0]) <= hi}
        for c in f.glyph:
            if len(c) < 2 or not lo <= ord(c[0]) <= hi or len(c) + 1 not in lims: continue
            s1 = f.seed
            for ch in c: s1 = step(s1, ord(ch))
            for K, g in tab.items():
                for L in (1, 2, 3, 4):
                    y = unfin(K, len(c.encode()) + L)
                    y = (y - 0xe6546b64) * inv(5) & M
                    x = unmix(rotl(y, 19) ^ s1)
                    if x in sup and len(chr(x).encode()) == L and c + chr(x) not in f.glyph:
                        res.append((c + chr(x), g))
    return res
if __name__ == '__main__' and sys.argv[1:] == ['long']:
    for name in ('regular', 'emoji'):
        for t, g in run_long(name):
            print('known: property=C08 font=%s text=%s draws=%s' % (name, ','.join('U+%04X' % ord(c) for c in t), ','.join('U+%04X' % ord(c) for c in g)))
elif __name__ == '__main__':
    every = len(sys.argv) > 1
    for name in ('regular', 'bold', 'small', 'emoji'):
        r = run(name, every)
        print(name, len(r), file=sys.stderr)
        for t, g in r:
            print('known: property=C09 font=%s text=%s draws=%s' % (name, ','.join('U+%04X' % ord(c) for c in t), ','.join('U+%04X' % ord(c) for c in g)))
