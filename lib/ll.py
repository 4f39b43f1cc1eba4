"""Parser for the textual LLVM IR that llvm-dis prints, and a compiler of each basic
block into Python closures for the executor in ex.py."""
import re
from sym import MASK
import sym as S


class P:
    """pointer: object key + byte offset"""
    __slots__ = ('o', 'f')

    def __init__(self, o, f):
        self.o = o
        self.f = f

    def __eq__(self, b):
        return type(b) is P and self.o == b.o and (self.f is b.f or (type(self.f) is int and type(b.f) is int and self.f == b.f))

    def __hash__(self):
        return hash((self.o, self.f))

    def __repr__(self):
        return '&%s+%s' % (self.o, self.f)


class Fn:
    pass


class Block:
    pass


class Unsupported(Exception):
    pass


class ParseError(Unsupported):
    pass


def split_top(s):
    out = []
    d = 0
    q = False
    st = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if q:
            if c == '"':
                q = False
        elif c == '"':
            q = True
        elif c in '([{<':
            d += 1
        elif c in ')]}>':
            d -= 1
        elif c == ',' and d == 0:
            out.append(s[st:i].strip())
            st = i + 1
        i += 1
    t = s[st:].strip()
    if t:
        out.append(t)
    return out


_ty_cache = {}


def parse_type(s):
    """parse a type at the start of s -> (type, rest); types: ('i',n) ('p',) ('v',) ('a',n,t) ('s',(t..))"""
    s = s.lstrip()
    m = re.match(r'i(\d+)\b', s)
    if m:
        return ('i', int(m.group(1))), s[m.end():]
    if s.startswith('ptr'):
        return ('p',), s[3:]
    if s.startswith('void'):
        return ('v',), s[4:]
    if s.startswith('['):
        m = re.match(r'\[(\d+) x ', s)
        t, r = parse_type(s[m.end():])
        r = r.lstrip()
        assert r[0] == ']'
        return ('a', int(m.group(1)), t), r[1:]
    if s.startswith('<{') or s.startswith('{'):
        packed = s[0] == '<'
        r = s[2:] if packed else s[1:]
        ts = []
        r = r.lstrip()
        while r[0] != '}':
            t, r = parse_type(r)
            ts.append(t)
            r = r.lstrip()
            if r[0] == ',':
                r = r[1:].lstrip()
        r = r[1:]
        if packed:
            r = r[1:]
        return ('s', tuple(ts), packed), r
    if s.startswith('metadata'):
        return ('m',), s[8:]
    if s.startswith('...'):
        return ('m',), s[3:]
    raise ParseError('type: ' + s[:60])


def sizeof(t):
    if t[0] == 'i':
        return (t[1] + 7) // 8
    if t[0] == 'p':
        return 8
    if t[0] == 'a':
        return t[1] * sizeof(t[2])
    if t[0] == 's':
        o = 0
        al = 1
        for x in t[1]:
            a = 1 if t[2] else alignof(x)
            al = max(al, a)
            o = (o + a - 1) // a * a + sizeof(x)
        return (o + al - 1) // al * al
    raise ParseError('size ' + str(t))


def alignof(t):
    if t[0] == 'i':
        n = (t[1] + 7) // 8
        k = 1
        while k < n:
            k *= 2
        return min(k, 16)
    if t[0] == 'p':
        return 8
    if t[0] == 'a':
        return alignof(t[2])
    if t[0] == 's':
        return 1 if t[2] else max([alignof(x) for x in t[1]] or [1])
    return 1


def struct_offs(t):
    o = 0
    out = []
    for x in t[1]:
        a = 1 if t[2] else alignof(x)
        o = (o + a - 1) // a * a
        out.append(o)
        o += sizeof(x)
    return out


ATTR = re.compile(r'(noundef|nonnull|nofree|noalias|readonly|writeonly|readnone|returned|signext|zeroext|inreg|nocapture|immarg|dead_on_unwind|dead_on_return|writable|noreturn|allocptr|nest|swiftself)\b\s*|'
                  r'(align \d+|align\(\d+\)|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|captures\([^)]*\)|initializes\(\([^)]*\)(?:, \([^)]*\))*\)|range\([^)]*\)|sret\(\[[^\]]*\]\)|sret\([^)]*\)|byval\([^)]*\)|dead_on_return\([^)]*\)|nofpclass\([^)]*\))\s*')


def strip_attrs(s):
    s = s.lstrip()
    while True:
        m = ATTR.match(s)
        if not m:
            return s
        s = s[m.end():]


ORDER = re.compile(r'( syncscope\("[^"]*"\))?( (monotonic|acquire|release|acq_rel|seq_cst|unordered))+\s*$')


class Module:
    def __init__(self, text):
        self.globals = {}       # name -> (size, bytes or None, ptrs {off: const}, is_const)
        self.aliases = {}
        self.fns = {}
        self.decls = {}
        self.parse(text)

    # ---- top level
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.parse_fn(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
                self.decls[m.group(1)] = l
            i += 1

    def parse_global(self, l):
        m = re.match(r'@("[^"]*"|[\w.$]+) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        m = re.match(r'(?:[a-z_]+(?:\([a-z]*\))? )*?alias ', rest)
        if m:
            self.aliases[name] = rest.rsplit('@', 1)[1].split(',')[0]
            return
        m = re.match(r'(.*?)\b(constant|global) ', rest)
        const = m.group(2) == 'constant'
        rest = rest[m.end():]
        try:
            ty, r = parse_type(rest)
        except ParseError:
            return
        size = sizeof(ty)
        buf = bytearray(size)
        ptrs = {}
        if m.group(1).find('external') >= 0:
            self.globals[name] = (size, None, {}, const)
            return
        self.const_init(ty, r.lstrip(), buf, 0, ptrs)
        self.globals[name] = (size, bytes(buf), ptrs, const)

    def const_init(self, ty, s, buf, off, ptrs):
        """write constant at buf[off:], return the unparsed rest"""
        s = s.lstrip()
        if s.startswith('zeroinitializer'):
            return s[15:]
        if s.startswith('undef'):
            return s[5:]
        if s.startswith('poison'):
            return s[6:]
        if ty[0] == 'a':
            if s.startswith('c"'):
                e = s.index('"', 2)
                data = re.sub(rb'\\(\\|[0-9A-Fa-f]{2})',
                              lambda m: b'\\' if m.group(1) == b'\\' else bytes([int(m.group(1), 16)]),
                              s[2:e].encode('latin1'))
                buf[off:off + len(data)] = data
                return s[e + 1:]
            assert s[0] == '[', s[:40]
            s = s[1:]
            es = sizeof(ty[2])
            for k in range(ty[1]):
                t, s = parse_type(s)
                s = self.const_init(t, s, buf, off + k * es, ptrs).lstrip()
                if s[0] == ',':
                    s = s[1:]
            s = s.lstrip()
            assert s[0] == ']', s[:40]
            return s[1:]
        if ty[0] == 's':
            s = s[2:] if s.startswith('<{') else s[1:]
            for t0, fo in zip(ty[1], struct_offs(ty)):
                t, s = parse_type(s)
                s = self.const_init(t, s, buf, off + fo, ptrs).lstrip()
                if s[0] == ',':
                    s = s[1:]
            s = s.lstrip()
            return s[2:] if s.startswith('}>') else s[1:]
        if ty[0] == 'i':
            m = re.match(r'-?\d+|true|false', s)
            if not m:
                return self.skip_const(s)
            v = {'true': 1, 'false': 0}.get(m.group(0))
            if v is None:
                v = int(m.group(0))
            nb = sizeof(ty)
            buf[off:off + nb] = (v & MASK[8 * nb]).to_bytes(nb, 'little')
            return s[m.end():]
        if ty[0] == 'p':
            m = re.match(r'null', s)
            if m:
                return s[4:]
            m = re.match(r'@("[^"]*"|[\w.$]+)', s)
            if m:
                ptrs[off] = P('@' + m.group(1), 0)
                return s[m.end():]
            return self.skip_const(s)
        raise ParseError('const ' + str(ty) + s[:40])

    def skip_const(self, s):
        d = 0
        for i, c in enumerate(s):
            if c in '([{<':
                d += 1
            elif c in ')]}>':
                if d == 0:
                    return s[i:]
                d -= 1
            elif c == ',' and d == 0:
                return s[i:]
        return ''

    # ---- functions
    def parse_fn(self, head, body):
        m = re.search(r'@("[^"]*"|[\w.$]+)\(', head)
        f = Fn()
        f.name = m.group(1)
        # parameter list
        d = 1
        i = m.end()
        while d:
            c = head[i]
            d += c in '('
            d -= c in ')'
            i += 1
        f.params = []
        for p in split_top(head[m.end():i - 1]):
            t, r = parse_type(p)
            r = strip_attrs(r)
            f.params.append((r.strip()[1:] if r.strip().startswith('%') else None, t))
        f.body = body
        f.head = head
        f.blocks = None
        self.fns[f.name] = f

    def fn(self, name):
        name = self.aliases.get(name, name)
        f = self.fns.get(name)
        if f is not None and f.blocks is None:
            self.compile_fn(f)
        return f

    def operand(self, ty, s):
        """('r',name) or ('c',value)"""
        s = s.strip()
        if s[0] == '%':
            return ('r', s[1:])
        if s in ('undef', 'poison', 'zeroinitializer'):
            if ty[0] == 's':
                return ('c', tuple(0 for _ in ty[1]))
            return ('c', 0)
        if s == 'true':
            return ('c', 1)
        if s in ('false', 'null', 'none'):
            return ('c', 0)
        if s[0] == '@':
            return ('c', P('@' + self.aliases.get(s[1:], s[1:]), 0))
        if ty[0] == 'i':
            return ('c', int(s) & MASK[ty[1]])
        if s.startswith('getelementptr'):
            m = re.match(r'getelementptr\s+(?:inbounds |nuw |nusw |inrange\([^)]*\) )*\((.*)\)$', s)
            parts = split_top(m.group(1))
            t, _ = parse_type(parts[0])
            pt, r = parse_type(parts[1])
            base = self.operand(pt, r)
            assert base[0] == 'c'
            off = base[1].f
            first = True
            for p in parts[2:]:
                it, r = parse_type(p)
                k = self.operand(it, r)[1]
                if k >> (it[1] - 1):
                    k -= 1 << it[1]
                if first:
                    off += k * sizeof(t)
                    first = False
                elif t[0] == 'a':
                    t = t[2]
                    off += k * sizeof(t)
                else:
                    off += struct_offs(t)[k]
                    t = t[1][k]
            return ('c', P(base[1].o, off & MASK[64]))
        if s.startswith('{') and ty[0] == 's':
            parts = split_top(s[1:-1].strip())
            vals = []
            for p in parts:
                t, r = parse_type(p)
                o = self.operand(t, r)
                vals.append(o[1])
            return ('c', tuple(vals))
        m = re.match(r'(inttoptr|ptrtoint) \((.*) to (i\d+|ptr)\)$', s)
        if m:
            t, r = parse_type(m.group(2))
            v = self.operand(t, r)[1]
            return ('c', v if type(v) is int else p2i(v) if m.group(1) == 'ptrtoint' else i2p(v))
        raise ParseError('operand %s %s' % (ty, s))

    def compile_fn(self, f):
        f.blocks = {}
        f.order = []
        cur = None
        lines = []
        # join multi-line switches
        buf = None
        for l in f.body:
            if buf is not None:
                buf += ' ' + l.strip()
                if l.strip().startswith(']'):
                    lines.append(buf)
                    buf = None
                continue
            if re.match(r'\s+switch ', l) and not l.rstrip().endswith(']') and '[' in l:
                buf = l.rstrip()
                continue
            lines.append(l)
        # label of the entry block: number of parameters unless named
        first = True
        for l in lines:
            if not l.strip():
                continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if m:
                cur = Block()
                cur.name = m.group(1)
                cur.raw = []
                f.blocks[cur.name] = cur
                f.order.append(cur)
                first = False
                continue
            if l.lstrip().startswith(';'):
                continue
            if cur is None:
                cur = Block()
                cur.name = str(len(f.params))
                cur.raw = []
                f.blocks[cur.name] = cur
                f.order.append(cur)
            cur.raw.append(self.parse_instr(f, l))
        f.entry = f.order[0]
        for b in f.order:
            t = b.raw[-1]
            if t[0] == 'br':
                b.succ = [t[1]] if len(t) == 2 else [t[2], t[3]]
            elif t[0] == 'switch':
                b.succ = [t[2]] + [x for _, x in t[3]]
            else:
                b.succ = []
            b.phis = [x for x in b.raw if x[0] == 'phi']
            b.code = [x for x in b.raw if x[0] != 'phi']
        f.noret = not any(b.raw[-1][0] == 'ret' for b in f.order)
        self.liveness(f)
        self.wto(f)
        for b in f.order:
            self.compile_block(f, b)

    def parse_instr(self, f, l):
        s = l.strip()
        k = s.find(', !')
        if k >= 0:
            s = s[:k]
        dst = None
        m = re.match(r'%("[^"]*"|[\w.$-]+) = ', s)
        if m:
            dst = m.group(1)
            s = s[m.end():]
        s = re.sub(r'^(tail|musttail|notail) ', '', s)
        op, _, r = s.partition(' ')
        O = self.operand
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            r = re.sub(r'^((nuw|nsw|exact|disjoint) )+', '', r)
            t, r = parse_type(r)
            a, b = split_top(r)
            return ('bin', dst, op, t[1], O(t, a), O(t, b))
        if op == 'icmp':
            r = re.sub(r'^samesign ', '', r)
            p, _, r = r.partition(' ')
            t, r = parse_type(r)
            a, b = split_top(r)
            return ('icmp', dst, p, t, O(t, a), O(t, b))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'ptrtoaddr'):
            r = re.sub(r'^((nuw|nsw|nneg) )+', '', r)
            if op == 'freeze':
                t, v = parse_type(r)
                return ('copy', dst, O(t, v))
            v, _, t2 = r.rpartition(' to ')
            t, v = parse_type(v)
            t2, _ = parse_type(t2)
            return ('cast', dst, op, t, O(t, v), t2)
        if op == 'getelementptr':
            r = re.sub(r'^((inbounds|nuw|nusw|inrange\([^)]*\)) )+', '', r)
            parts = split_top(r)
            t, _ = parse_type(parts[0])
            pt, b = parse_type(parts[1])
            base = O(pt, b)
            const = 0
            idx = []
            first = True
            for p in parts[2:]:
                it, v = parse_type(p)
                v = O(it, v)
                if first:
                    sc = sizeof(t)
                    first = False
                elif t[0] == 'a':
                    t = t[2]
                    sc = sizeof(t)
                else:
                    const += struct_offs(t)[v[1]]
                    t = t[1][v[1]]
                    continue
                if v[0] == 'c':
                    kk = v[1]
                    if kk >> (it[1] - 1):
                        kk -= 1 << it[1]
                    const += kk * sc
                else:
                    idx.append((v, it[1], sc))
            return ('gep', dst, base, const & MASK[64], idx)
        if op == 'load':
            r = re.sub(r'^(volatile |atomic )+', '', r)
            parts = split_top(r)
            t, _ = parse_type(parts[0])
            pt, v = parse_type(parts[1])
            return ('load', dst, t, O(pt, ORDER.sub('', v)))
        if op == 'store':
            r = re.sub(r'^(volatile |atomic )+', '', r)
            parts = split_top(r)
            t, v = parse_type(parts[0])
            pt, p = parse_type(parts[1])
            return ('store', t, O(t, v), O(pt, ORDER.sub('', p)))
        if op == 'fence':
            return ('call', None, ('v',), '@llvm.donothing', [])
        if op in ('atomicrmw', 'cmpxchg'):
            # single threaded execution: an ordinary read and write
            r = re.sub(r'^((weak|volatile) )+', '', r)
            what = ''
            if op == 'atomicrmw':
                what, _, r = r.partition(' ')
            parts = split_top(r)
            pt, p = parse_type(parts[0])
            args = [O(pt, p)]
            for x in parts[1:]:
                if x.strip().startswith('align '):
                    continue
                t, x = parse_type(x)
                args.append(O(t, ORDER.sub('', x)))
            if t[0] != 'i':
                raise ParseError('instr: ' + l)
            rt = t if op == 'atomicrmw' else ('s', [t, ('i', 1)])
            return ('call', dst, rt, '@llvm.verif.%s.%s.i%d' % (op, what or 'x', t[1]), args)
        if op == 'alloca':
            parts = split_top(r)
            t, _ = parse_type(parts[0])
            return ('alloca', dst, sizeof(t))
        if op == 'phi':
            t, r = parse_type(r)
            inc = {}
            for m in re.finditer(r'\[ (.*?), %("[^"]*"|[\w.$-]+) \]', r):
                inc[m.group(2)] = O(t, m.group(1))
            return ('phi', dst, t, inc)
        if op == 'select':
            parts = split_top(r)
            _, c = parse_type(parts[0])
            t, a = parse_type(parts[1])
            _, b = parse_type(parts[2])
            return ('select', dst, t, O(('i', 1), c), O(t, a), O(t, b))
        if op == 'br':
            if r.startswith('label'):
                return ('br', r[len('label %'):].strip())
            parts = split_top(r)
            _, c = parse_type(parts[0])
            return ('br', O(('i', 1), c), parts[1][len('label %'):], parts[2][len('label %'):])
        if op == 'switch':
            m = re.match(r'(.*?), label %("[^"]*"|[\w.$-]+) \[(.*)\]', r)
            t, v = parse_type(m.group(1))
            cases = []
            for c in re.finditer(r'i\d+ (-?\d+), label %("[^"]*"|[\w.$-]+)', m.group(3)):
                cases.append((int(c.group(1)) & MASK[t[1]], c.group(2)))
            return ('switch', (O(t, v), t[1]), m.group(2), cases)
        if op == 'ret':
            if r == 'void':
                return ('ret', None)
            t, v = parse_type(r)
            return ('ret', O(t, v))
        if op == 'unreachable':
            return ('unreachable',)
        if op == 'extractvalue':
            parts = split_top(r)
            t, v = parse_type(parts[0])
            return ('extract', dst, O(t, v), [int(x) for x in parts[1:]])
        if op == 'insertvalue':
            parts = split_top(r)
            t, v = parse_type(parts[0])
            t2, v2 = parse_type(parts[1])
            return ('insert', dst, O(t, v), O(t2, v2), [int(x) for x in parts[2:]], len(t[1]))
        if op == 'call':
            r = re.sub(r'^((fastcc|ccc|coldcc|cc\d+|nnan|fast) )+', '', r)
            r = strip_attrs(r)
            t, r = parse_type(r)
            r = r.strip()
            if r[0] == '(':    # varargs function type
                d = 0
                for i, c in enumerate(r):
                    d += c == '('
                    d -= c == ')'
                    if d == 0:
                        break
                r = r[i + 1:].strip()
            m = re.match(r'(@"[^"]*"|@[\w.$]+|%[\w.$-]+|asm[^(]*)\(', r)
            callee = m.group(1)
            d = 1
            i = m.end()
            while d:
                d += r[i] == '('
                d -= r[i] == ')'
                i += 1
            args = []
            for a in split_top(r[m.end():i - 1]):
                at, v = parse_type(a)
                if at[0] == 'm':
                    args.append(('c', 0))
                    continue
                args.append(O(at, strip_attrs(v)))
            return ('call', dst, t, callee, args)
        raise ParseError('instr: ' + l)

    # ---- analyses
    def uses(self, ins):
        k = ins[0]
        out = []

        def u(o):
            if o is not None and o[0] == 'r':
                out.append(o[1])
        if k == 'bin' or k == 'icmp':
            u(ins[4])
            u(ins[5])
        elif k == 'copy':
            u(ins[2])
        elif k == 'cast':
            u(ins[4])
        elif k == 'gep':
            u(ins[2])
            for v, _, _ in ins[4]:
                u(v)
        elif k == 'load':
            u(ins[3])
        elif k == 'store':
            u(ins[2])
            u(ins[3])
        elif k == 'select':
            u(ins[3])
            u(ins[4])
            u(ins[5])
        elif k == 'br':
            if len(ins) == 4:
                u(ins[1])
        elif k == 'switch':
            u(ins[1][0])
        elif k == 'ret':
            u(ins[1])
        elif k == 'extract':
            u(ins[2])
        elif k == 'insert':
            u(ins[2])
            u(ins[3])
        elif k == 'call':
            for a in ins[4]:
                u(a)
            if ins[3][0] == '%':
                out.append(ins[3][1:])
        return out

    def dest(self, ins):
        k = ins[0]
        if k in ('store', 'br', 'switch', 'ret', 'unreachable'):
            return None
        return ins[1]

    def liveness(self, f):
        bs = f.order
        gen = {}
        kill = {}
        for b in bs:
            g = set()
            k = set(p[1] for p in b.phis)
            for ins in b.code:
                for u in self.uses(ins):
                    if u not in k:
                        g.add(u)
                d = self.dest(ins)
                if d is not None:
                    k.add(d)
            gen[b.name] = g
            kill[b.name] = k
            b.live = set(g)          # live-in excluding phi results
        ch = True
        while ch:
            ch = False
            for b in reversed(bs):
                out = set()
                for s in b.succ:
                    sb = f.blocks[s]
                    out |= sb.live
                    for p in sb.phis:
                        o = p[3].get(b.name)
                        if o is not None and o[0] == 'r':
                            out.add(o[1])
                        out.discard(p[1]) if False else None
                n = gen[b.name] | (out - kill[b.name])
                if n != b.live:
                    b.live = n
                    ch = True
                b.out = out
        for b in bs:
            # live-in including phi results that are used
            b.livein = frozenset(b.live | {p[1] for p in b.phis})
            # live after each call
            live = set(b.out)
            b.after = {}
            for i in range(len(b.code) - 1, -1, -1):
                ins = b.code[i]
                d = self.dest(ins)
                if ins[0] == 'call':
                    b.after[i] = frozenset(live - {d})
                if d is not None:
                    live.discard(d)
                live.update(self.uses(ins))

    def wto(self, f):
        """Bourdoncle weak topological order; b.path = ((pos, loop header or None), ...)"""
        succ = {b.name: b.succ for b in f.order}

        def sccs(nodes, root):
            idx = {}
            low = {}
            st = []
            on = set()
            res = []
            cnt = [0]
            # iterative Tarjan
            for r in [root] + [n for n in nodes if n != root]:
                if r in idx or r not in nodes:
                    continue
                work = [(r, iter(succ[r]))]
                idx[r] = low[r] = cnt[0]
                cnt[0] += 1
                st.append(r)
                on.add(r)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in nodes:
                            continue
                        if w not in idx:
                            idx[w] = low[w] = cnt[0]
                            cnt[0] += 1
                            st.append(w)
                            on.add(w)
                            work.append((w, iter(succ[w])))
                            adv = True
                            break
                        elif w in on:
                            low[v] = min(low[v], idx[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == idx[v]:
                        c = []
                        while True:
                            w = st.pop()
                            on.discard(w)
                            c.append(w)
                            if w == v:
                                break
                        res.append(c)
            res.reverse()
            return res

        def rec(nodes, root, prefix, cut):
            pos = 0
            for c in sccs(nodes, root):
                if len(c) == 1 and (c[0] in cut or c[0] not in succ[c[0]]):
                    f.blocks[c[0]].path = prefix + ((pos, None),)
                else:
                    cs = set(c)
                    # header: entry node from outside
                    h = None
                    for n in c:
                        if n == root:
                            h = n
                    if h is None:
                        for b in f.order:
                            if b.name in cs and any(b.name in succ[p] for p in succ if p not in cs):
                                h = b.name
                                break
                    f.blocks[h].path = prefix + ((pos, h), (-1, None))
                    f.blocks[h].is_header = True
                    f.loops[h] = cs
                    saved = succ
                    inner = cs - {h}
                    if inner:
                        roots = [s for s in succ[h] if s in inner]
                        rec(inner, roots[0] if roots else next(iter(inner)), prefix + ((pos, h),), cut)
                pos += 1
        for b in f.order:
            b.is_header = False
            b.path = ((0, None),)
        f.loops = {}
        # reachable nodes only
        seen = {f.entry.name}
        st = [f.entry.name]
        while st:
            for s in succ[st.pop()]:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        rec(seen, f.entry.name, (), set())
        for b in f.order:
            b.loops = tuple(h for _, h in b.path if h is not None)

    # ---- compilation to Python
    def compile_block(self, f, b):
        """b.items: list of (kind, ...) with pure runs compiled into functions of R"""
        items = []
        pure = []
        npure = [0]
        env = {'S': S, 'P': P, 'add': S.add, 'sub': S.sub, 'mul': S.mul, 'bitop': S.bitop, 'shl': S.shl,
               'lshr': S.lshr, 'ashr': S.ashr, 'eq': S.eq, 'ult': S.ult, 'slt': S.slt, 'not_': S.not_, 'zext': S.zext,
               'sext': S.sext, 'trunc': S.trunc, 'udiv': S.udiv, 'urem': S.urem, 'ptrcmp': ptrcmp, 'p2i': p2i, 'i2p': i2p, 'gadd': gadd,
               'K': []}

        def o(x):
            if x[0] == 'r':
                return 'R[%r]' % x[1]
            v = x[1]
            if type(v) is int:
                return str(v)
            env['K'].append(v)
            return 'K[%d]' % (len(env['K']) - 1)

        def flush():
            if pure:
                src = 'def g(R):\n' + ''.join('  %s\n' % x for x in pure)
                exec(compile(src, f.name + ':' + b.name, 'exec'), env)
                items.append(('py', env['g'], npure[0]))
                pure.clear()
                npure[0] = 0
        for i, ins in enumerate(b.code):
            k = ins[0]
            if k == 'bin':
                _, d, op, w, x, y = ins
                npure[0] += 1
                M = MASK[w]
                a, c = o(x), o(y)
                pure.append('a=%s; b=%s' % (a, c))
                g = 'type(a) is int and type(b) is int'
                if op == 'add':
                    e = '(a+b)&%d if %s else add(a,b,%d)' % (M, g, w)
                elif op == 'sub':
                    e = '(a-b)&%d if %s else sub(a,b,%d)' % (M, g, w)
                elif op == 'mul':
                    e = '(a*b)&%d if %s else mul(a,b,%d)' % (M, g, w)
                elif op in ('and', 'or', 'xor'):
                    e = '(a%sb) if %s else bitop(%r,a,b,%d)' % ({'and': '&', 'or': '|', 'xor': '^'}[op], g, op, w)
                elif op in ('shl', 'lshr', 'ashr'):
                    e = '%s(a,b,%d)' % (op, w)
                elif op in ('udiv', 'urem'):
                    e = '%s(a,b,%d)' % (op, w)
                else:
                    raise ParseError(op)
                pure.append('R[%r]=%s' % (d, e))
            elif k == 'icmp':
                _, d, p, t, x, y = ins
                npure[0] += 1
                pure.append('a=%s; b=%s' % (o(x), o(y)))
                if t[0] == 'p':
                    pure.append('R[%r]=ptrcmp(%r,a,b)' % (d, p))
                    continue
                w = t[1]
                g = 'type(a) is int and type(b) is int'
                sg = 1 << (w - 1)
                e = {'eq': '(1 if a==b else 0) if %s else eq(a,b,%d)' % (g, w),
                     'ne': '(1 if a!=b else 0) if %s else not_(eq(a,b,%d))' % (g, w),
                     'ult': '(1 if a<b else 0) if %s else ult(a,b,%d)' % (g, w),
                     'ugt': '(1 if a>b else 0) if %s else ult(b,a,%d)' % (g, w),
                     'ule': '(1 if a<=b else 0) if %s else not_(ult(b,a,%d))' % (g, w),
                     'uge': '(1 if a>=b else 0) if %s else not_(ult(a,b,%d))' % (g, w),
                     'slt': 'slt(a,b,%d)' % w, 'sgt': 'slt(b,a,%d)' % w,
                     'sle': 'not_(slt(b,a,%d))' % w, 'sge': 'not_(slt(a,b,%d))' % w}[p]
                pure.append('R[%r]=%s' % (d, e))
            elif k == 'copy':
                npure[0] += 1
                pure.append('R[%r]=%s' % (ins[1], o(ins[2])))
            elif k == 'cast':
                _, d, op, t, v, t2 = ins
                npure[0] += 1
                if op == 'zext':
                    pure.append('a=%s\n  R[%r]=a if type(a) is int else zext(a,%d,%d)' % (o(v), d, t[1], t2[1]))
                elif op == 'sext':
                    pure.append('R[%r]=sext(%s,%d,%d)' % (d, o(v), t[1], t2[1]))
                elif op == 'trunc':
                    pure.append('a=%s\n  R[%r]=a&%d if type(a) is int else trunc(a,%d,%d)' % (o(v), d, MASK[t2[1]], t[1], t2[1]))
                elif op in ('ptrtoint', 'ptrtoaddr'):
                    pure.append('R[%r]=p2i(%s)' % (d, o(v)))
                elif op == 'inttoptr':
                    pure.append('R[%r]=i2p(%s)' % (d, o(v)))
                else:
                    pure.append('R[%r]=%s' % (d, o(v)))
            elif k == 'gep':
                _, d, base, c, idx = ins
                npure[0] += 1
                pure.append('p=%s' % o(base))
                if not idx:
                    pure.append('R[%r]=gadd(p,%d)' % (d, c))
                else:
                    e = str(c)
                    pure.append('f=%d' % c)
                    for v, w, sc in idx:
                        pure.append('a=%s' % o(v))
                        if w < 64:
                            pure.append('a=sext(a,%d,64)' % w)
                        pure.append('f=(f+a*%d)&%d if type(a) is int and type(f) is int else add(f,mul(a,%d,64),64)' % (sc, MASK[64], sc))
                    pure.append('R[%r]=gadd(p,f)' % d)
            elif k == 'extract':
                npure[0] += 1
                e = o(ins[2])
                for j in ins[3]:
                    e += '[%d]' % j
                pure.append('R[%r]=%s' % (ins[1], e))
            elif k == 'insert':
                npure[0] += 1
                assert len(ins[4]) == 1
                j = ins[4][0]
                pure.append('a=%s; R[%r]=a[:%d]+(%s,)+a[%d:]' % (o(ins[2]), ins[1], j, o(ins[3]), j + 1))
            else:
                flush()
                if k == 'call':
                    items.append(('call', ins[1], ins[2], ins[3], ins[4], b.after[i]))
                elif k == 'alloca':
                    items.append(('alloca', ins[1], ins[2], f.name + '%' + ins[1]))
                else:
                    items.append(ins)
        flush()
        b.items = items


def gadd(p, f):
    if type(p) is not P:
        # pointer from an integer (dangling but non-null); only address arithmetic is allowed
        return S.add(p, f, 64)
    if type(f) is int and type(p.f) is int:
        return P(p.o, (p.f + f) & MASK[64])
    return P(p.o, S.add(p.f, f, 64))


def addr_of(o):
    return S.var('addr:' + str(o), 64, 1 << 20, 1 << 46)


def p2i(p):
    if type(p) is P:
        return S.add(addr_of(p.o), p.f, 64)
    return p


def i2p(v):
    if type(v) is int:
        return v
    for k, x in S._parts(v, 64)[1]:
        if k == 1 and x.op == 'v' and x.a[0].startswith('addr:'):
            return P(_objkey(x.a[0][5:]), S.sub(v, x, 64))
    raise ParseError('inttoptr')


def _objkey(s):
    return s


def ptrcmp(p, a, b):
    if type(a) is P and type(b) is P:
        if a.o == b.o:
            x, y = a.f, b.f
        else:
            if p == 'eq':
                return 0
            if p == 'ne':
                return 1
            x, y = p2i(a), p2i(b)
    else:
        if (type(a) is int and a == 0) or (type(b) is int and b == 0):
            if type(a) is P or type(b) is P:
                if p == 'eq':
                    return 0
                if p == 'ne':
                    return 1
        x, y = p2i(a), p2i(b)
    if p == 'eq':
        return S.eq(x, y, 64)
    if p == 'ne':
        return S.not_(S.eq(x, y, 64))
    if p == 'ult':
        return S.ult(x, y, 64)
    if p == 'ugt':
        return S.ult(y, x, 64)
    if p == 'ule':
        return S.not_(S.ult(y, x, 64))
    if p == 'uge':
        return S.not_(S.ult(x, y, 64))
    raise ParseError('ptr cmp ' + p)
