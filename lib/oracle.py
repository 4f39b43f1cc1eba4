"""What the fonts should contain, read from the font sources (sprite sheets, index and
alias files) in /repo/codegen, independently of the generator and of the generated tables."""
import hashlib
import json
import os
import pickle
import zlib
import build

CG = os.path.join(build.REPO, 'codegen')
STYLES = ('small', 'regular', 'bold')          # style numbers 0, 1, 2
LINE = {'small': 24, 'regular': 30, 'bold': 30, 'emoji': 32, 'hanzi': 32}


def read_png(path):
    """rows of booleans: is the pixel's red component zero?"""
    with open(path, 'rb') as f:
        d = f.read()
    assert d[:8] == b'\x89PNG\r\n\x1a\n'
    p = 8
    idat = b''
    plte = None
    while p < len(d):
        n = int.from_bytes(d[p:p + 4], 'big')
        t = d[p + 4:p + 8]
        c = d[p + 8:p + 8 + n]
        p += 12 + n
        if t == b'IHDR':
            w, h = int.from_bytes(c[:4], 'big'), int.from_bytes(c[4:8], 'big')
            depth, ctype, inter = c[8], c[9], c[12]
        elif t == b'PLTE':
            plte = c
        elif t == b'IDAT':
            idat += c
    assert inter == 0
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[ctype]
    raw = zlib.decompress(idat)
    bpp = max(1, ch * depth // 8)
    stride = (w * ch * depth + 7) // 8
    prev = bytearray(stride)
    rows = []
    p = 0
    for y in range(h):
        ft = raw[p]
        line = bytearray(raw[p + 1:p + 1 + stride])
        p += 1 + stride
        if ft == 1:
            for i in range(bpp, stride):
                line[i] = (line[i] + line[i - bpp]) & 255
        elif ft == 2:
            for i in range(stride):
                line[i] = (line[i] + prev[i]) & 255
        elif ft == 3:
            for i in range(stride):
                a = line[i - bpp] if i >= bpp else 0
                line[i] = (line[i] + ((a + prev[i]) >> 1)) & 255
        elif ft == 4:
            for i in range(stride):
                a = line[i - bpp] if i >= bpp else 0
                b = prev[i]
                c = prev[i - bpp] if i >= bpp else 0
                q = a + b - c
                pa, pb, pc = abs(q - a), abs(q - b), abs(q - c)
                pr = a if pa <= pb and pa <= pc else b if pb <= pc else c
                line[i] = (line[i] + pr) & 255
        prev = line
        if depth == 8:
            px = [line[x * ch] for x in range(w)]
        else:
            m = (1 << depth) - 1
            px = [(line[x * depth >> 3] >> (8 - depth - (x * depth & 7))) & m for x in range(w)]
        if ctype == 3:
            px = [plte[3 * v] for v in px]
        rows.append([v == 0 for v in px])
    return rows


def trim(m, lim):
    """(rows, y offset): blank rows/columns removed, at most lim = (top, right, bottom, left)"""
    t, r, b, l = lim
    H = len(m)
    W = len(m[0])

    def lead(seq, k):
        n = 0
        for s in seq:
            if n >= k or any(s):
                break
            n += 1
        return n
    cols = [[m[y][x] for y in range(H)] for x in range(W)]
    nl = lead(cols, l)
    nr = lead(cols[nl:][::-1], r)
    m = [row[nl:W - nr] for row in m]
    nt = lead(m, t)
    nb = lead(m[nt:][::-1], b)
    return m[nt:H - nb], nt


def parse_hex(s):
    return ''.join(chr(int(x, 16)) for x in s.split('-'))


class Font:
    pass


def _load():
    with open(os.path.join(CG, 'config.json')) as f:
        conf = json.load(f)
    fonts = {}
    for gs in conf['glyphSets']:
        F = Font()
        F.name = gs['name'].lower()
        F.seed = gs['m3Seed']
        F.size = gs['size']
        img = read_png(os.path.join(CG, gs['sprites']))
        cells = []
        if gs['indexType'] == 'txt-row-major':
            k = 0
            with open(os.path.join(CG, gs['index'])) as f:
                for line in f.read().split('\n'):
                    s = line.split('#', 1)[0].strip()
                    if s:
                        cells.append((parse_hex(s), k // gs['cols'], k % gs['cols']))
                        k += 1
        else:
            with open(os.path.join(CG, gs['index'])) as f:
                for e in json.load(f)['map']:
                    cells.append((parse_hex(e['hex']), e['row'], e['col']))
        F.glyph = {}          # cluster -> (w, h, y offset, rows as ints, bit c = column c)
        F.canon = {}          # cluster -> canonical cluster
        g = gs['size'] + gs['gutter']
        B = gs['border']
        for c, row, col in cells:
            m = [img[y][B + col * g:(col + 1) * g] for y in range(B + row * g, (row + 1) * g)]
            if gs['glyphTrim'] == 'CJK':
                lim = (0, 0, 0, 0)
            elif F.name in STYLES and (row, col) == (0, 2):
                a, b = gs['size'] // 2 - 1, gs['size'] // 2 - 2
                lim = (a, b, a, b)
            else:
                lim = (gs['size'],) * 4
            m, yo = trim(m, lim)
            w = len(m[0]) if m else 0
            rows = tuple(sum(1 << x for x in range(w) if r[x]) for r in m)
            F.glyph[c] = (w, len(m), yo, rows)
            F.canon[c] = c
        F.aliases = []
        if gs['aliases']:
            with open(os.path.join(CG, gs['aliases'])) as f:
                for line in f.read().split('\n'):
                    p = line.split('#', 1)[0].strip().split(' ')
                    if len(p) == 2 and p[0] and p[1]:
                        a, b = parse_hex(p[0]), parse_hex(p[1])
                        F.aliases.append((a, b))
        for a, b in F.aliases:
            F.glyph[b] = F.glyph[a]
            F.canon[b] = F.canon[a]
        fonts[F.name] = F
    return fonts


def source_key():
    h = hashlib.sha256()
    for d in (CG, os.path.join(CG, 'src_data')):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                with open(p, 'rb') as fh:
                    h.update(f.encode() + hashlib.sha256(fh.read()).digest())
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:16]


_fonts = None


def fonts():
    global _fonts
    if _fonts is None:
        def make(d):
            with open(os.path.join(d, 'fonts.pickle'), 'wb') as f:
                pickle.dump(_load(), f)
        d = build.keyed('oracle', source_key(), make)
        import __main__
        with open(os.path.join(d, 'fonts.pickle'), 'rb') as f:
            _fonts = pickle.load(f)
    return _fonts


def lookup(style, text):
    """(font name, cluster) that painting should use at the start of text; cluster None for
    the replacement character, '\\n' for a line break"""
    if text[0] == '\n':
        return None, '\n'
    F = fonts()
    for name in ('emoji', STYLES[style], 'hanzi'):
        f = F[name]
        for n in range(maxlen(f, text[0]), 0, -1):
            if len(text) >= n and text[:n] in f.glyph:
                return name, text[:n]
    return STYLES[style], None


def maxlen(f, ch):
    m = getattr(f, '_ml', None)
    if m is None:
        m = {}
        for c in f.glyph:
            m[c[0]] = max(m.get(c[0], 0), len(c))
        f._ml = m
    return m.get(ch, 0)


def segment(style, text):
    """[(font, cluster or None, glyph)] for a whole text"""
    out = []
    F = fonts()
    while text:
        f, c = lookup(style, text)
        if c == '\n':
            out.append((None, '\n', None))
            text = text[1:]
        elif c is None:
            out.append((f, None, F[f].glyph['\ufffd']))
            text = text[1:]
        else:
            out.append((f, c, F[f].glyph[c]))
            text = text[len(c):]
    return out


WIDTH, LINES, WPL = 336, 536, 11
M64 = (1 << 64) - 1


def model_paint(fb, clip, cur, style, text):
    """reference rendering: (fb, cursor or None when the cursor is unspecified, changed?)"""
    fb = list(fb)
    minx, miny, maxx, maxy = clip
    cx, cy, lh = cur
    spec = True
    if maxy > LINES or maxx > WIDTH or minx >= maxx:
        return fb, None
    for f, c, g in segment(style, text):
        if c == '\n':
            cx, cy, lh = minx, cy + max(lh, 24) + 1, 0
            continue
        w, h, yo, rows = g
        if minx + w + 3 >= maxx:
            return fb, None
        x1 = max(cx, minx)
        if x1 + w + 3 >= maxx:
            x1, cy, lh = minx, cy + max(lh, 24) + 1, 0
        y0 = cy + yo
        if y0 >= maxy:
            return fb, None
        for r in range(h):
            y = y0 + r
            if miny <= y < maxy:
                v = rows[r] << ((x1 + 1) & 31)
                k = y * WPL + ((x1 + 1) >> 5)
                fb[k] ^= v & 0xffffffff
                if v >> 32:
                    fb[k + 1] ^= v >> 32
        cx, lh = x1 + w + 3, max(lh, LINE[f])
    return fb, (cx, cy, lh)


def model_clear(fb, clip):
    minx, miny, maxx, maxy = clip
    fb = list(fb)
    if maxy > LINES or maxx > WIDTH or minx >= maxx or miny >= maxy:
        return fb
    m = ((1 << maxx) - 1) & ~((1 << minx) - 1)
    for y in range(miny, maxy):
        for k in range(WPL):
            fb[y * WPL + k] |= (m >> (32 * k)) & 0xffffffff
    return fb
