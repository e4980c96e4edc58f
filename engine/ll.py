"""Textual LLVM-IR (clang 18, opaque pointers) reader: lazily parses functions into instruction tuples."""
import re, struct

TOK = re.compile(r'\s+|(c"(?:[^"])*")|("(?:[^"])*")|([@%$#!][-a-zA-Z$._0-9]+|[@%]"(?:[^"])*")|(-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)|(\.\.\.)|([A-Za-z_][\w.]*)|([()\[\]{}<>,=*:|!])')

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c == ';': break
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('tok %r in %r' % (s[pos:pos + 20], s[:200]))
        pos = m.end()
        t = m.group().strip()
        if t: out.append(t)
    return out

class Ty: pass
# types are tuples: ('int',n) ('float',) ('double',) ('ptr',) ('void',) ('array',n,ty) ('struct',packed,tys) ('vector',n,ty) ('named',name) ('metadata',) ('label',) ('func',)

ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly returned zeroext signext inreg byval sret align dereferenceable dereferenceable_or_null
 immarg swiftself nofree dead_on_unwind writable captures nest inalloca noundef range nsw nuw exact inbounds fast nnan ninf nsz arcp contract afn reassoc tail musttail notail
 fastcc ccc coldcc local_unnamed_addr unnamed_addr dso_local hidden linkonce_odr internal private external weak_odr weak linkonce common appending available_externally extern_weak
 constant global thread_local disjoint nneg samesign volatile atomic syncscope acquire release seq_cst monotonic acq_rel unordered cleanup'''.split())

class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}      # name -> (text line)
        self.funcs = {}        # name -> (start text lines)
        self.decls = {}
        self.aliases = {}
        self.parsed = {}
        self._layout = {}
        txt = open(path).read().split('\n')
        i = 0
        n = len(txt)
        while i < n:
            l = txt[i]
            if l.startswith('define '):
                j = i + 1
                while txt[j] != '}': j += 1
                name = self._fname(l)
                self.funcs[name] = (l, txt[i + 1:j])
                i = j
            elif l.startswith('declare '):
                self.decls[self._fname(l)] = l
            elif l.startswith('@'):
                m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)', l)
                nm = self._clean(m.group(1))
                if re.search(r'\balias\b', m.group(2).split('"')[0].split('{')[0].split('@')[0]):
                    self.aliases[nm] = self._clean(re.findall(r'@"[^"]*"|@[-\w.$]+', m.group(2))[-1])
                else:
                    self.globals[nm] = m.group(2)
            elif l.startswith('%'):
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)', l)
                if m:
                    toks = tokenize(m.group(2))
                    if toks[0] == 'opaque':
                        self.types[self._clean(m.group(1))] = ('struct', False, ())
                    else:
                        p = P(toks, self)
                        self.types[self._clean(m.group(1))] = p.type()
            i += 1

    @staticmethod
    def _clean(s):
        if len(s) > 1 and s[1] == '"': return s[0] + s[2:-1]
        return s

    def _fname(self, l):
        m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', l)
        return self._clean(m.group(1))

    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        r = self._layout.get(t)
        if r: return r
        r = self._size_align(self.resolve(t))
        self._layout[t] = r
        return r

    def _size_align(self, t):
        k = t[0]
        if k == 'int':
            b = 1 if t[1] <= 8 else 2 if t[1] <= 16 else 4 if t[1] <= 32 else 8 if t[1] <= 64 else 16
            return (b, b)
        if k == 'float': return (4, 4)
        if k == 'double': return (8, 8)
        if k == 'x86_fp80': return (16, 16)
        if k == 'ptr': return (8, 8)
        if k == 'array':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'vector':
            s, a = self.size_align(t[2])
            sz = s * t[1]
            return (sz, sz)
        if k == 'struct':
            off = 0; al = 1
            for x in t[2]:
                s, a = self.size_align(x)
                if t[1]: a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        raise KeyError(t)

    def field_off(self, t, idx):
        t = self.resolve(t)
        off = 0
        for i, x in enumerate(t[2]):
            s, a = self.size_align(x)
            if t[1]: a = 1
            off = (off + a - 1) // a * a
            if i == idx: return off, x
            off += s
        raise IndexError

    def function(self, name):
        f = self.parsed.get(name)
        if f is None:
            f = parse_function(self, name)
            self.parsed[name] = f
        return f

class P:
    """token-stream parser"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise SyntaxError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))
    def type(self):
        x = self.next()
        if re.fullmatch(r'i\d+', x): t = ('int', int(x[1:]))
        elif x in ('float', 'double', 'ptr', 'void', 'metadata', 'label', 'x86_fp80', 'half', 'token'): t = (x,)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']'); t = ('array', n, e)
        elif x == '{':
            t = ('struct', False, self._tylist('}'))
        elif x == '<':
            if self.peek() == '{':
                self.next(); tys = self._tylist('}'); self.expect('>'); t = ('struct', True, tys)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>'); t = ('vector', n, e)
        elif x[0] == '%':
            t = ('named', Module._clean(x))
        else:
            raise SyntaxError('type? %s in %s' % (x, ' '.join(self.t)[:300]))
        while self.peek() == '*': self.next(); t = ('ptr',)
        if self.peek() == '(':   # function type
            d = 0
            while True:
                y = self.next()
                if y == '(': d += 1
                if y == ')':
                    d -= 1
                    if d == 0: break
            t = ('func', t)
        return t
    def _tylist(self, end):
        out = []
        if self.eat(end): return ()
        while True:
            out.append(self.type())
            if self.eat(end): return tuple(out)
            self.expect(',')
    def skip_attrs(self):
        while True:
            x = self.peek()
            if x is None: return
            if x in ATTRS or x.startswith('#'):
                self.next()
                if x == 'align' :
                    if self.eat('('): self.next(); self.expect(')')
                    elif re.fullmatch(r'\d+', self.peek() or ''): self.next()
                elif self.peek() == '(' and x in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range', 'captures', 'syncscope', 'inalloca'):
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(': d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0: break
            else: return
    def value(self, ty):
        """operand -> ('r', name) | ('c', const) | ('g', name) | ('ce', ...)"""
        x = self.next()
        rt = self.m.resolve(ty)
        if x[0] == '%': return ('r', Module._clean(x))
        if x[0] == '@': return ('g', Module._clean(x))
        if x == 'null': return ('c', 0)
        if x == 'true': return ('c', 1)
        if x == 'false': return ('c', 0)
        if x in ('undef', 'poison'): return ('undef', ty)
        if x == 'zeroinitializer': return ('zero', ty)
        if rt[0] == 'int' and re.fullmatch(r'-?\d+', x): return ('c', int(x) & ((1 << rt[1]) - 1))
        if rt[0] in ('float', 'double'):
            if x.startswith('0x'):
                v = struct.unpack('<d', struct.pack('<Q', int(x[2:], 16)))[0]
            else: v = float(x)
            return ('c', v)
        if x == '<' and rt[0] == 'vector':
            out = []
            while True:
                t = self.type(); out.append(self.value(t))
                if self.eat('>'): break
                self.expect(',')
            return ('agg', tuple(out))
        if x in ('[', '{') or x == '<':
            packed = x == '<'
            if packed: self.expect('{')
            end = ']' if x == '[' else '}'
            out = []
            if not self.eat(end):
                while True:
                    t = self.type(); out.append((t, self.value(t)))
                    if self.eat(end): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('cagg', tuple(out))
        if x[0] == 'c' and x[1:2] == '"':
            return ('str', unescape(x[2:-1]))
        if x == 'splat':
            self.expect('('); t = self.type(); v = self.value(t); self.expect(')')
            return ('agg', (v,) * rt[1])
        if x == 'getelementptr':
            self.skip_attrs()
            self.expect('(')
            bt = self.type(); self.expect(',')
            ops = []
            while True:
                if self.peek() == 'inrange':
                    self.next()
                    if self.peek() == '(':
                        while self.next() != ')': pass
                t = self.type(); self.skip_attrs(); ops.append((t, self.value(t)))
                if self.eat(')'): break
                self.expect(',')
            return ('gep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
            self.expect('('); t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('castc', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            self.skip_attrs()
            self.expect('('); t = self.type(); v = self.value(t); self.expect(','); t2 = self.type(); v2 = self.value(t2); self.expect(')')
            return ('binc', x, t, v, v2)
        if x in ('dso_local_equivalent', 'no_cfi'):
            return ('g', Module._clean(self.next()))
        raise SyntaxError('value? %s (%s) in %s' % (x, ty, ' '.join(self.t)[:300]))

def unescape(s):
    out = bytearray(); i = 0
    b = s
    while i < len(b):
        if b[i] == '\\' and b[i + 1:i + 2] == '\\': out.append(92); i += 2
        elif b[i] == '\\':
            out.append(int(b[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(b[i])); i += 1
    return bytes(out)

class Function:
    __slots__ = ('name', 'params', 'blocks', 'entry', 'rty', 'nr', 'ipdom')

LABEL = re.compile(r'^("[^"]*"|[-\w.$]+):')

def parse_function(mod, name):
    head, body = mod.funcs[name]
    f = Function(); f.name = name; f.ipdom = None
    # params
    h = tokenize(head.split(' personality ')[0].rstrip(' {'))
    # find the token of function name followed by '('
    for k in range(len(h)):
        if h[k][0] == '@' and h[k + 1] == '(': break
    p = P(h, mod); p.i = k + 2
    params = []
    auto = 0
    if not p.eat(')'):
        while True:
            if p.peek() == '...': p.next(); p.expect(')'); break
            t = p.type(); p.skip_attrs()
            if p.peek() and p.peek()[0] == '%':
                nm = Module._clean(p.next())
            else:
                nm = '%' + str(auto)
            auto += 1
            params.append((nm, t))
            if p.eat(')'): break
            p.expect(',')
    f.params = params
    blocks = {}
    cur = None
    lines = []
    # join multi-line instructions
    i = 0
    merged = []
    while i < len(body):
        l = body[i]
        if not l.strip() or l.lstrip().startswith(';'):
            i += 1; continue
        if not l.startswith(' '):
            merged.append(l); i += 1; continue
        s = l
        st = l.strip()
        if re.match(r'^(%\S+ = )?switch ', st) or (st.startswith('switch')):
            while ']' not in body[i]:
                i += 1; s += ' ' + body[i].strip()
        elif ' landingpad ' in ' ' + st or 'invoke ' in st and ' to label' not in st:
            while i + 1 < len(body) and re.match(r'^\s+(cleanup|catch|filter|to label)', body[i + 1]) :
                i += 1; s += ' ' + body[i].strip()
        merged.append(s); i += 1
    # entry label
    auto_label = None
    for l in merged:
        if not l.startswith(' '):
            m = LABEL.match(l)
            lab = m.group(1)
            if lab[0] == '"': lab = lab[1:-1]
            cur = '%' + lab
            blocks[cur] = []
            continue
        if cur is None:
            cur = '%' + str(len(params)) if all(re.fullmatch(r'%\d+', n) for n, _ in params) or not params else '%entry'
            blocks[cur] = []
            f.entry = cur
        ins = parse_inst(mod, l.strip())
        if ins: blocks[cur].append(ins)
    if not hasattr(f, 'entry'):
        f.entry = next(iter(blocks))
    f.blocks = blocks
    return f

FASTP = re.compile(r'^(?:(%"[^"]*"|%[-\w.$]+) = )?(.*)$', re.S)

def strip_md(s):
    # remove trailing ", !foo !12" metadata
    k = s.find(', !')
    while k >= 0:
        # make sure not inside string / metadata operand of a call
        return s[:k]
    return s

def tyname(mod, t):
    t = mod.resolve(t)
    if t[0] == 'int': return 'i%d' % t[1]
    if t[0] == 'float': return 'f32'
    if t[0] == 'double': return 'f64'
    if t[0] == 'ptr': return 'ptr'
    return t

def parse_inst(mod, line):
    m = FASTP.match(line)
    dest = Module._clean(m.group(1)) if m.group(1) else None
    s = m.group(2)
    if 'llvm.dbg' in s or 'llvm.experimental.noalias' in s: return None
    if not ('(metadata' in s):
        s = strip_md(s)
    toks = tokenize(s)
    p = P(toks, mod)
    op = p.next()
    while op in ('tail', 'musttail', 'notail'): op = p.next()
    TN = lambda t: tyname(mod, t)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
        p.skip_attrs(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return ('bin', dest, op, TN(t), a, b)
    if op == 'fneg':
        p.skip_attrs(); t = p.type(); a = p.value(t)
        return ('fneg', dest, TN(t), a)
    if op in ('fcmp', 'icmp'):
        p.skip_attrs(); pred = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return (op, dest, pred, TN(t), a, b)
    if op == 'load':
        p.skip_attrs(); t = p.type(); p.expect(','); t2 = p.type(); a = p.value(t2)
        return ('load', dest, mod.resolve(t), a)
    if op == 'store':
        p.skip_attrs(); t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); a = p.value(t2)
        return ('store', None, mod.resolve(t), v, a)
    if op == 'getelementptr':
        p.skip_attrs(); bt = p.type(); p.expect(',')
        ops = []
        while True:
            t = p.type(); ops.append((t, p.value(t)))
            if not p.eat(','): break
        return ('gep', dest, *compile_gep(mod, bt, ops))
    if op == 'br':
        if p.eat('label'):
            return ('jmp', None, Module._clean(p.next()))
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = Module._clean(p.next()); p.expect(','); p.expect('label'); b = Module._clean(p.next())
        return ('br', None, c, a, b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = Module._clean(p.next()); p.expect('[')
        cases = []
        while not p.eat(']'):
            t2 = p.type(); k = p.value(t2); p.expect(','); p.expect('label'); cases.append((k[1], Module._clean(p.next())))
        return ('switch', None, TN(t), v, d, cases)
    if op == 'phi':
        p.skip_attrs(); t = p.type()
        inc = {}
        while True:
            p.expect('['); v = p.value(t); p.expect(','); l = Module._clean(p.next()); p.expect(']')
            inc[l] = v
            if not p.eat(','): break
        return ('phi', dest, TN(t), inc)
    if op == 'select':
        p.skip_attrs(); t = p.type(); c = p.value(t); p.expect(','); t1 = p.type(); a = p.value(t1); p.expect(','); t2 = p.type(); b = p.value(t2)
        return ('select', dest, TN(t1), c, a, b)
    if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'addrspacecast'):
        p.skip_attrs(); t = p.type(); v = p.value(t); p.expect('to'); t2 = p.type()
        return ('cast', dest, op, TN(t), TN(t2), v)
    if op == 'alloca':
        p.skip_attrs(); t = p.type(); n = ('c', 1)
        if p.eat(','):
            if p.peek() != 'align':
                t2 = p.type(); n = p.value(t2)
        return ('alloca', dest, mod.size_align(t)[0], n)
    if op == 'ret':
        t = p.type()
        if t[0] == 'void': return ('ret', None, None)
        return ('ret', None, p.value(t))
    if op == 'unreachable': return ('unreachable', None)
    if op in ('call', 'invoke'):
        p.skip_attrs(); t = p.type(); p.skip_attrs()
        if t[0] == 'func': rt = t[1]
        else: rt = t
        # callee
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type(); p.skip_attrs()
                if at[0] == 'metadata':
                    d = 0
                    while True:
                        y = p.peek()
                        if d == 0 and y in (',', ')'): break
                        if y == '(': d += 1
                        if y == ')': d -= 1
                        p.next()
                    args.append((at, ('c', 0)))
                else:
                    args.append((TN(at) if mod.resolve(at)[0] in ('int', 'float', 'double', 'ptr') else mod.resolve(at), p.value(at)))
                if p.eat(')'): break
                p.expect(',')
        nl = ul = None
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.expect('label'); nl = Module._clean(p.next()); p.expect('unwind'); p.expect('label'); ul = Module._clean(p.next())
        return ('call', dest, callee, args, TN(rt) if mod.resolve(rt)[0] in ('int', 'float', 'double', 'ptr') else mod.resolve(rt), nl, ul)
    if op == 'landingpad':
        t = p.type()
        cl = []
        while p.peek():
            x = p.next()
            if x == 'cleanup': cl.append(('cleanup',))
            elif x == 'catch':
                t = p.type(); cl.append(('catch', p.value(t)))
            elif x == 'filter':
                t = p.type(); p.value(t); cl.append(('filter',))
        return ('landingpad', dest, cl)
    if op == 'resume':
        t = p.type(); return ('resume', None, p.value(t))
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return ('extractvalue', dest, v, idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); e = p.value(t2); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return ('insertvalue', dest, mod.resolve(t), v, e, idx)
    if op == 'extractelement':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); i = p.value(t2)
        return ('extractelement', dest, v, i)
    if op == 'insertelement':
        t = p.type(); v = p.value(t); p.expect(','); t1 = p.type(); e = p.value(t1); p.expect(','); t2 = p.type(); i = p.value(t2)
        return ('insertelement', dest, mod.resolve(t), v, e, i)
    if op == 'shufflevector':
        t = p.type(); a = p.value(t); p.expect(','); t1 = p.type(); b = p.value(t1); p.expect(','); t2 = p.type(); mk = p.value(t2)
        return ('shufflevector', dest, mod.resolve(t), a, b, mod.resolve(t2), mk)
    if op == 'freeze':
        t = p.type(); return ('freeze', dest, p.value(t))
    if op == 'atomicrmw':
        p.skip_attrs(); o = p.next(); t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); v = p.value(t2)
        return ('atomicrmw', dest, o, TN(t2), a, v)
    if op == 'fence': return None
    raise SyntaxError('inst ' + line)

def compile_gep(mod, bt, ops):
    """-> (base operand, const offset, [(scale, idx operand, idx ty)])"""
    base = ops[0][1]
    off = 0
    var = []
    t = bt
    for k, (it, iv) in enumerate(ops[1:]):
        if k == 0:
            sz = mod.size_align(t)[0]
        else:
            t = mod.resolve(t)
            if t[0] == 'struct':
                o, t2 = mod.field_off(t, iv[1])
                off += o; t = t2
                continue
            sz = mod.size_align(t[2])[0]
            t = t[2]
        w = mod.resolve(it)[1]
        if iv[0] == 'c':
            x = iv[1]
            if x >> (w - 1): x -= 1 << w
            off += x * sz
        elif iv[0] == 'zero':
            pass
        else:
            var.append((sz, iv, 'i%d' % w))
    return (base, off, var)
