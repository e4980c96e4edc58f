"""std::regex matching (ECMAScript subset without captures) and sscanf over symbolic characters of known length."""
from dag import *
from execir import Unsupported
ALL = frozenset(range(256))
CLS = {'d': frozenset(range(48, 58)), 'w': frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + [95]), 's': frozenset((9, 10, 11, 12, 13, 32))}
POSIX = {'digit': CLS['d'], 'xdigit': frozenset(b'0123456789abcdefABCDEF'), 'alpha': frozenset(list(range(65, 91)) + list(range(97, 123))), 'upper': frozenset(range(65, 91)),
         'lower': frozenset(range(97, 123)), 'alnum': frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123))), 'space': CLS['s']}
HEX = POSIX['xdigit']; SPACE = CLS['s']

def member(c, s):
    """condition: character c (i8) lies in the set s"""
    if not is_node(c): return 1 if (c & 255) in s else 0
    r = 0
    v = sorted(s); k = 0
    while k < len(v):
        j = k
        while j + 1 < len(v) and v[j + 1] == v[j] + 1: j += 1
        lo, hi = v[k], v[j]
        if lo == hi: t = icmp('eq', 'i8', c, lo)
        else:
            t = 1
            if lo > 0: t = band(t, bnot(icmp('ult', 'i8', c, lo)))
            if hi < 255: t = band(t, icmp('ult', 'i8', c, hi + 1))
        r = bor(r, t); k = j + 1
    return r

class P:
    def __init__(self, s, icase): self.s = s; self.i = 0; self.icase = icase
    def fold(self, f):
        if self.icase: f = frozenset(f | {ord(chr(x).swapcase()) for x in f if x < 128 and chr(x).isalpha()})
        return f
    def more(self): return self.i < len(self.s)
    def alt(self):
        a = [self.seq()]
        while self.more() and self.s[self.i] == '|': self.i += 1; a.append(self.seq())
        return ('alt', a) if len(a) > 1 else a[0]
    def seq(self):
        r = []
        while self.more() and self.s[self.i] not in '|)': r.append(self.rep())
        return ('seq', r)
    def rep(self):
        a = self.atom()
        while self.more() and self.s[self.i] in '*+?{':
            c = self.s[self.i]
            if c == '{':
                j = self.s.index('}', self.i); b = self.s[self.i + 1:j].split(','); self.i = j + 1
                lo = int(b[0]); hi = lo if len(b) == 1 else int(b[1]) if b[1] else None
            else: lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[c]; self.i += 1
            if self.more() and self.s[self.i] == '?': self.i += 1        # laziness does not change what matches
            a = ('rep', a, lo, hi)
        return a
    def esc(self):
        c = self.s[self.i]; self.i += 1
        if c in CLS: return CLS[c]
        if c.lower() in CLS: return ALL - CLS[c.lower()]
        if c == 'x': v = int(self.s[self.i:self.i + 2], 16); self.i += 2; return frozenset((v,))
        m = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11, '0': 0}
        if c in m: return frozenset((m[c],))
        if c.isalnum(): raise Unsupported('regex escape ' + c)
        return frozenset((ord(c),))
    def atom(self):
        c = self.s[self.i]; self.i += 1
        if c == '^': return ('bol',)
        if c == '$': return ('eol',)
        if c == '.': return ('set', ALL - {10, 13})
        if c == '(':
            if self.s.startswith('?:', self.i): self.i += 2
            elif self.s.startswith('?', self.i): raise Unsupported('regex lookahead')
            a = self.alt()
            if not self.more() or self.s[self.i] != ')': raise Unsupported('regex group')
            self.i += 1
            return a
        if c == '[':
            neg = self.s[self.i] == '^'; self.i += neg
            out = set(); first = True
            while self.s[self.i] != ']':
                if self.s.startswith('[:', self.i):
                    j = self.s.index(':]', self.i); out |= POSIX[self.s[self.i + 2:j]]; self.i = j + 2; continue
                c = self.s[self.i]; self.i += 1
                if c == '\\':
                    e = self.esc()
                    if len(e) > 1: out |= e; continue
                    c = chr(min(e))
                if self.s[self.i] == '-' and self.s[self.i + 1] != ']':
                    self.i += 1; d = self.s[self.i]; self.i += 1
                    if d == '\\': d = chr(min(self.esc()))
                    out |= set(range(ord(c), ord(d) + 1))
                else: out.add(ord(c))
            self.i += 1
            f = self.fold(frozenset(out))
            return ('set', ALL - f if neg else f)
        if c == '\\':
            if self.s[self.i] in 'bB123456789': raise Unsupported('regex escape')
            return ('set', self.fold(self.esc()))
        return ('set', self.fold(frozenset((ord(c),))))

def paths(t, pos, n, k):
    """all ways the term t consumes characters from pos: yields (end, tuple of (index, set))"""
    if k[0] <= 0: raise Unsupported('regex with too many matches')
    k[0] -= 1
    o = t[0]
    if o == 'set':
        if pos < n: yield pos + 1, ((pos, t[1]),)
    elif o == 'bol':
        if pos == 0: yield pos, ()
    elif o == 'eol':
        if pos == n: yield pos, ()
    elif o == 'seq':
        def go(i, p, acc):
            if i == len(t[1]): yield p, acc; return
            for e, a in paths(t[1][i], p, n, k): yield from go(i + 1, e, acc + a)
        yield from go(0, pos, ())
    elif o == 'alt':
        for a in t[1]: yield from paths(a, pos, n, k)
    else:
        _, a, lo, hi = t
        def go(c, p, acc):
            if c >= lo: yield p, acc
            if hi is not None and c >= hi: return
            for e, b in paths(a, p, n, k):
                if e == p and c >= lo: continue
                yield from go(c + 1, e, acc + b)
        yield from go(0, pos, ())

def alternatives(pat, n, full, icase):
    p = P(pat, icase); t = p.alt()
    if p.more(): raise Unsupported('regex syntax')
    out = []; k = [20000]
    for s in ([0] if full else range(n + 1)):
        for e, a in paths(t, s, n, k):
            if full and e != n: continue
            m = {}
            for i, c in a: m[i] = m[i] & c if i in m else c
            out.append(m)
    # drop alternatives contained in another one
    keep = []
    for m in out:
        if any(all(i in m and m[i] <= c for i, c in q.items()) for q in keep): continue
        keep = [q for q in keep if not all(i in q and q[i] <= c for i, c in m.items())] + [m]
        if len(keep) > 64: raise Unsupported('regex with too many alternatives')
    return keep

def match(eng, st, pat, s, full, icase):
    for m in alternatives(pat, len(s), full, icase):
        ok = 1
        for i in sorted(m):
            c = member(s[i], m[i])
            if is_node(c): c = eng.branch(st, c)
            if not c: ok = 0; break
        if ok: return 1
    return 0

def hexval(c):
    if not is_node(c): return int(chr(c), 16)
    z = cast('zext', 'i8', 'i32', c)
    return select(icmp('ult', 'i8', c, 58), iop('add', 'i32', z, -48 & 0xffffffff), select(icmp('ult', 'i8', c, 71), iop('add', 'i32', z, -55 & 0xffffffff), iop('add', 'i32', z, -87 & 0xffffffff), 'i32'), 'i32')

def sscanf(eng, st, v):
    """%[width]x / %[width]X fields (any others: unsupported)"""
    fmt = eng.pystr(st, v[1]); args = list(v[2:]); p = v[0]; i = 0; got = 0
    def ch():
        return eng.load(st, p, 1, 'i8')
    def has(s):
        c = member(ch(), s)
        return eng.branch(st, c) if is_node(c) else c
    def has_at(q, t):
        c = member(eng.load(st, q, 1, 'i8'), t)
        return eng.branch(st, c) if is_node(c) else c
    while i < len(fmt):
        if fmt[i] != '%':
            if fmt[i].isspace(): raise Unsupported('sscanf format')
            if not has({ord(fmt[i])}): return got
            p += 1; i += 1; continue
        j = i + 1; w = ''
        while fmt[j].isdigit(): w += fmt[j]; j += 1
        kind = fmt[j]; j += 1
        size = 4
        if kind == 'h':
            size = 2
            if fmt[j] == 'h': size = 1; j += 1
            kind = fmt[j]; j += 1
        if kind not in 'xX': raise Unsupported('sscanf conversion ' + kind)
        w = int(w) if w else 1 << 30
        neg = False
        if not has(HEX):        # blanks, sign (glibc's scanf)
            while has(SPACE): p += 1
            if has({0}): return got if got else 0xffffffff
            if has({43, 45}):
                neg = has({45}); p += 1; w -= 1
            if w <= 0 or not has(HEX): return got
        val = None; n = 0
        while n < w:
            if not has(HEX):
                # a prefix 0x counts against the width and adds nothing
                if n == 1 and has({120, 88}) and has_at(p - 1, {48}): p += 1; w -= 1; continue
                break
            h = hexval(ch()); val = h if val is None else iop('or', 'i32', iop('shl', 'i32', val, 4), h)
            p += 1; n += 1
            if n > 8: raise Unsupported('sscanf overflow')
        if neg: val = iop('sub', 'i32', 0, val)
        if size != 4: val = cast('trunc', 'i32', 'i%d' % (8 * size), val)
        eng.store(st, args[got], size, val); got += 1
        i = j
    return got
