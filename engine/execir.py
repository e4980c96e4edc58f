"""Path-forking symbolic executor over LLVM IR (concrete addresses, symbolic scalars)."""
import struct, math, time
import dag
from dag import *
from interval import Iv
import ll

class Abort(Exception):
    """path ends (reason, detail)"""
    def __init__(self, kind, detail=''):
        self.kind = kind; self.detail = detail

class Unsupported(Exception): pass

class Obj:
    __slots__ = ('size', 'cells', 'alive', 'owner', 'kind', 'name', 'zero')
    def __init__(self, size, kind, name='', owner=None):
        self.size = size; self.cells = {}; self.alive = True; self.owner = owner; self.kind = kind; self.name = name; self.zero = False
    def clone(self, owner):
        o = Obj(self.size, self.kind, self.name, owner)
        o.cells = dict(self.cells); o.alive = self.alive; o.zero = self.zero
        return o

class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'regs', 'prev', 'call', 'allocas')
    def __init__(self, fn):
        self.fn = fn; self.blk = fn.entry; self.idx = 0; self.regs = {}; self.prev = None; self.call = None; self.allocas = []
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.blk = self.blk; f.idx = self.idx; f.regs = dict(self.regs); f.prev = self.prev; f.call = self.call; f.allocas = list(self.allocas)
        return f

class State:
    def __init__(self):
        self.frames = []; self.objs = {}; self.pc = []; self.pcset = {}; self.iv = Iv(); self.checks = []
        self.token = object(); self.exc = {}; self.caught = []; self.cur = None; self.inputs = []; self.steps = 0; self.outs = []
        self.ufresh = 0; self.flags = set(); self.choices = []; self.nid = 0
        self.names = {}
    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.objs = dict(self.objs); s.pc = list(self.pc); s.pcset = dict(self.pcset); s.iv = self.iv.copy(); s.checks = list(self.checks)
        s.exc = dict(self.exc); s.caught = list(self.caught); s.cur = self.cur; s.inputs = list(self.inputs); s.steps = self.steps; s.outs = list(self.outs)
        s.ufresh = self.ufresh; s.flags = set(self.flags); s.choices = list(self.choices); s.nid = self.nid
        s.names = dict(self.names)
        s.token = object(); self.token = object()
        return s

HEAP_BASE = 1 << 20      # object ids of dynamic objects start here

STD_BASES = {'St16invalid_argument': 'St11logic_error', 'St12out_of_range': 'St11logic_error', 'St12length_error': 'St11logic_error', 'St12domain_error': 'St11logic_error',
             'St11logic_error': 'St9exception', 'St13runtime_error': 'St9exception', 'St11regex_error': 'St13runtime_error', 'St11range_error': 'St13runtime_error',
             'St14overflow_error': 'St13runtime_error', 'St9bad_alloc': 'St9exception', 'St17bad_function_call': 'St9exception', 'St8bad_cast': 'St9exception',
             'St20bad_array_new_length': 'St9bad_alloc'}

class Engine:
    def __init__(self, mod, concrete=None, max_steps=4000000, max_paths=20000):
        self.iv0 = Iv()
        self.mod = mod
        self.gid = {}; self.gname = {}
        k = 16
        for n in list(mod.globals) + list(mod.funcs) + list(mod.decls) + list(mod.aliases):
            if n not in self.gid:
                self.gid[n] = k; self.gname[k] = n; k += 1
        assert k < HEAP_BASE
        self.base = {}          # lazily materialised pristine globals
        self.concrete = concrete  # dict of inputs for concrete execution
        self.max_steps = max_steps; self.max_paths = max_paths
        self.stat = dict(instrs=0, forks=0, paths=0, pruned=0, funcs=set(), solver=0.0, queries=0)
        self.deadline = None; self.release = False
        self.feas = None
        self.choice_prefix = None
        self.H = {}
        for nm in dir(self):
            if nm.startswith('x_'): self.H['@' + nm[2:]] = getattr(self, nm)
        self.fn_ids = set()

    # ------------------------------------------------------------ memory
    def addr_of(self, name):
        while name in self.mod.aliases: name = self.mod.aliases[name]
        return self.gid[name] << 32

    def obj(self, st, a, write=False):
        i = a >> 32
        o = st.objs.get(i)
        if o is None:
            o = self.base.get(i)
            if o is None:
                if i < HEAP_BASE and i in self.gname and self.gname[i] in self.mod.globals:
                    o = self.materialise(i)
                    self.base[i] = o
                else:
                    if i == 0: raise Abort('null', 'null pointer dereference at %#x' % a)
                    raise Abort('wild', 'wild pointer %#x' % a)
        if write and o.owner is not st.token:
            o = o.clone(st.token)
            st.objs[i] = o
        return o

    def materialise(self, i):
        name = self.gname[i]
        txt = self.mod.globals[name]
        toks = ll.tokenize(ll.strip_md(txt))
        p = ll.P(toks, self.mod)
        p.skip_attrs()
        ext = 'external' in toks[:3]
        while p.peek() in ('thread_local', '(', ')', 'localdynamic', 'initialexec', 'localexec') : p.next()
        p.skip_attrs()
        ty = p.type()
        o = Obj(self.mod.size_align(ty)[0], 'global', name)
        if ext:
            o.zero = True
            if o.size < 64: o.size = 64
            return o
        v = p.value(ty)
        self.init(o, 0, ty, v)
        return o

    def init(self, o, off, ty, v):
        ty = self.mod.resolve(ty)
        k = v[0]
        if k == 'zero' :
            self.zero_range(o, off, self.mod.size_align(ty)[0]); return
        if k == 'undef': return
        if k == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b)
            return
        if k == 'cagg':
            if ty[0] == 'array':
                sz = self.mod.size_align(ty[2])[0]
                for i, (t, x) in enumerate(v[1]): self.init(o, off + i * sz, t, x)
            else:
                for i, (t, x) in enumerate(v[1]):
                    fo, _ = self.mod.field_off(ty, i)
                    self.init(o, off + fo, t, x)
            return
        if k == 'agg':
            sz = self.mod.size_align(ty[2])[0]
            for i, x in enumerate(v[1]): self.init(o, off + i * sz, ty[2], x)
            return
        o.cells[off] = (self.mod.size_align(ty)[0], self.cval(v))

    def zero_range(self, o, off, n):
        i = 0
        while i < n:
            step = 8 if (off + i) % 8 == 0 and n - i >= 8 else 1
            o.cells[off + i] = (step, 0); i += step

    def cval(self, v):
        k = v[0]
        if k == 'c': return v[1]
        if k == 'g': return self.addr_of(v[1])
        if k == 'gep':
            b, off, var = ll.compile_gep(self.mod, v[1], v[2])
            return self.cval(b) + off
        if k == 'zero':
            return self.zeroval(v[1])
        if k == 'castc':
            x = self.cval(v[3])
            return x
        if k == 'binc':
            return iop(v[1], ll.tyname(self.mod, v[2]), self.cval(v[3]), self.cval(v[4]))
        if k == 'agg': return tuple(self.cval(x) for x in v[1])
        if k == 'cagg': return tuple(self.cval(x) for _, x in v[1])
        raise Unsupported('const %s' % (k,))

    def zeroval(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] in ('int', 'ptr'): return 0
        if ty[0] in ('float', 'double'): return 0.0
        if ty[0] == 'struct': return tuple(self.zeroval(t) for t in ty[2])
        return tuple(self.zeroval(ty[2]) for _ in range(ty[1]))

    def alloc(self, st, size, kind, name=''):
        i = HEAP_BASE + st.nid
        st.nid += 1
        st.objs[i] = Obj(size, kind, name, st.token)
        return i << 32

    def check_range(self, o, off, n, a, what):
        if not o.alive:
            raise Abort('uaf', '%s of freed memory (%s)' % (what, o.name))
        if off + n > o.size:
            raise Abort('oob', '%s of %d bytes at offset %d of %d-byte %s object %s' % (what, n, off if off < 1 << 31 else off - (1 << 32), o.size, o.kind, o.name))

    def load(self, st, a, n, ty):
        if is_node(a):
            if a.op == 'select':
                return dag.select(a.args[0], self.load(st, a.args[1], n, ty), self.load(st, a.args[2], n, ty), ty)
            a = self.concretize(st, a)
        o = self.obj(st, a)
        off = a & 0xffffffff
        self.check_range(o, off, n, a, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.coerce(c[1], n, ty)
        return self.coerce(self.slow_load(st, o, off, n), n, ty)

    def coerce(self, v, n, ty):
        if ty[0] == 'f':
            if isinstance(v, float): return v
            if is_node(v):
                if v.ty == ty: return v
                return cast('bitcast', v.ty if v.ty != 'ptr' else 'i64', ty, v)
            return bitsf(ty, v)
        if isinstance(v, float): return fbits('f32' if n == 4 else 'f64', v)
        if is_node(v) and v.ty[0] == 'f':
            return cast('bitcast', v.ty, 'i%d' % (n * 8), v)
        if ty == 'i1':
            if is_node(v): return cast('trunc', v.ty, 'i1', v) if v.ty != 'i1' else v
            return v & 1
        return v

    def slow_load(self, st, o, off, n):
        if o.zero and not any(off - 16 < k < off + n for k in o.cells): return 0
        bs = [None] * n
        symb = False
        for k in range(max(0, off - 15), off + n):
            c = o.cells.get(k)
            if c is None or k + c[0] <= off: continue
            sz, v = c
            if isinstance(v, float): v = fbits('f32' if sz == 4 else 'f64', v)
            if is_node(v) and v.ty[0] == 'f': v = cast('bitcast', v.ty, 'i%d' % (sz * 8), v)
            if is_node(v): symb = True
            for j in range(sz):
                p = k + j - off
                if 0 <= p < n:
                    if is_node(v):
                        vt = v.ty if v.ty != 'ptr' else 'i64'
                        if width(vt) < sz * 8: v = cast('zext', vt, 'i%d' % (sz * 8), v); vt = 'i%d' % (sz * 8)
                        if not is_node(v):
                            bs[p] = (v >> (8 * j)) & 255
                        else:
                            bs[p] = cast('trunc', vt, 'i8', iop('lshr', vt, v, 8 * j)) if sz > 1 else v
                    else:
                        bs[p] = (v >> (8 * j)) & 255
        und = [i for i, b in enumerate(bs) if b is None]
        if und:
            if o.zero:
                for i in und: bs[i] = 0
            else:
                st.flags.add('uninit:' + o.name)
                if len(und) == n:
                    st.ufresh += 1
                    v = var('uninit!%d' % st.ufresh, 'i%d' % (n * 8), None)
                    # materialise so repeated loads agree
                    return v
                for i in und:
                    st.ufresh += 1
                    bs[i] = var('uninit!%d' % st.ufresh, 'i8', None); symb = True
        if not any(is_node(b) for b in bs):
            r = 0
            for i, b in enumerate(bs): r |= b << (8 * i)
            return r
        ty = 'i%d' % (8 * n)
        r = 0
        for i, b in enumerate(bs):
            z = cast('zext', 'i8', ty, b) if n > 1 else b
            r = iop('or', ty, r, iop('shl', ty, z, 8 * i)) if n > 1 else z
        return r

    def store(self, st, a, n, v):
        if is_node(a):
            a = self.concretize(st, a)
        o = self.obj(st, a, True)
        off = a & 0xffffffff
        self.check_range(o, off, n, a, 'write')
        self.put(o, off, n, v)

    def put(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v); return
        self.clear(o, off, n)
        cells[off] = (n, v)

    def clear(self, o, off, n):
        cells = o.cells
        for k in range(max(0, off - 15), off + n):
            c = cells.get(k)
            if c is None or k + c[0] <= off: continue
            del cells[k]
            if k < off or k + c[0] > off + n:
                # split remainder into bytes
                sz, v = c
                if isinstance(v, float): v = fbits('f32' if sz == 4 else 'f64', v)
                for j in range(sz):
                    p = k + j
                    if p < off or p >= off + n:
                        if is_node(v):
                            if v.ty[0] == 'f': v = cast('bitcast', v.ty, 'i%d' % (sz * 8), v)
                            cells[p] = (1, cast('trunc', v.ty, 'i8', iop('lshr', v.ty, v, 8 * j)))
                        else:
                            cells[p] = (1, (v >> (8 * j)) & 255)

    def memcpy(self, st, d, s, n):
        if n == 0: return
        so = self.obj(st, s); soff = s & 0xffffffff
        self.check_range(so, soff, n, s, 'read')
        items = []
        k = soff
        end = soff + n
        while k < end:
            c = so.cells.get(k)
            if c is not None and k + c[0] <= end:
                items.append((k - soff, c[0], c[1])); k += c[0]
            else:
                # inside another cell or uninit
                cov = c is not None or any((so.cells.get(q) or (0,))[0] + q > k for q in range(max(0, k - 15), k))
                if cov:
                    items.append((k - soff, 1, self.slow_load(st, so, k, 1)))
                elif so.zero: items.append((k - soff, 1, 0))
                k += 1
        do = self.obj(st, d, True); doff = d & 0xffffffff
        self.check_range(do, doff, n, d, 'write')
        self.clear(do, doff, n)
        for o, sz, v in items: do.cells[doff + o] = (sz, v)

    def memset(self, st, d, b, n):
        if n == 0: return
        do = self.obj(st, d, True); doff = d & 0xffffffff
        self.check_range(do, doff, n, d, 'write')
        self.clear(do, doff, n)
        if b == 0: self.zero_range(do, doff, n)
        else:
            for i in range(n): do.cells[doff + i] = (1, b)

    def cstr(self, st, a, limit=4096):
        out = []
        while True:
            c = self.load(st, a, 1, 'i8')
            if is_node(c): out.append(c)
            else:
                if c == 0: return out
                out.append(c)
            a += 1
            if len(out) > limit: raise Unsupported('cstr')

    def pystr(self, st, a):
        return bytes(self.cstr(st, a)).decode('latin1')

    # ------------------------------------------------------------ path conditions
    def assume(self, st, c):
        """add boolean node/const to pc; returns False if infeasible"""
        if not is_node(c): return bool(c)
        val = 1
        n = c
        while n.op == 'not': n = n.args[0]; val = 1 - val
        k = st.pcset.get(n.id)
        if k is not None: return k == val
        if n.op == 'band' and val == 1:
            return self.assume(st, n.args[0]) and self.assume(st, n.args[1])
        iv = st.iv.get(n)
        if iv[0] == iv[1]:
            if iv[0] != val: return False
            st.pcset[n.id] = val
            # implied: still recorded (cheap) so that real/fp encodings stay self-contained
            return True
        st.pcset[n.id] = val
        st.pc.append((n, val))
        return self.refine(st, n, val)

    def refine(self, st, n, val):
        iv = st.iv
        if n.op == 'fcmp':
            a, b = n.args; p = n.attr
            A, B = iv.get(a), iv.get(b)
            ok = True
            up = (lambda t, z: float(np.nextafter(np.float32(z), np.float32(math.inf))) if t == 'f32' else float(np.nextafter(z, math.inf)))
            dn = (lambda t, z: float(np.nextafter(np.float32(z), np.float32(-math.inf))) if t == 'f32' else float(np.nextafter(z, -math.inf)))
            if val:
                if p == 'ord':
                    if is_node(a): ok = iv.refine(a, -math.inf, math.inf, False)
                    if ok and is_node(b): ok = iv.refine(b, -math.inf, math.inf, False)
                elif p in ('olt', 'ole'):
                    t = a.ty if is_node(a) else b.ty
                    if is_node(a): ok = iv.refine(a, -math.inf, dn(t, B[1]) if p == 'olt' else B[1], False)
                    if ok and is_node(b): ok = iv.refine(b, up(t, A[0]) if p == 'olt' else A[0], math.inf, False)
                elif p == 'oeq':
                    lo, hi = max(A[0], B[0]), min(A[1], B[1])
                    if is_node(a): ok = iv.refine(a, lo, hi, False)
                    if ok and is_node(b): ok = iv.refine(b, lo, hi, False)
            else:
                if not A[2] and not B[2]:
                    t = a.ty if is_node(a) else b.ty
                    if p == 'olt':   # a >= b
                        if is_node(a): ok = iv.refine(a, B[0], math.inf, False)
                        if ok and is_node(b): ok = iv.refine(b, -math.inf, A[1], False)
                    elif p == 'ole':  # a > b
                        if is_node(a): ok = iv.refine(a, up(t, B[0]), math.inf, False)
                        if ok and is_node(b): ok = iv.refine(b, -math.inf, dn(t, A[1]), False)
                    elif p == 'oeq' and not is_node(b) and B[0] == B[1]:
                        if A[0] == B[0]: ok = iv.refine(a, up(t, B[0]), math.inf, False)
                        elif A[1] == B[0]: ok = iv.refine(a, -math.inf, dn(t, B[0]), False)
            return ok
        if n.op == 'icmp':
            p, ty = n.attr
            a, b = n.args
            A = iv.sg(ty, iv.get(a), a); B = iv.sg(ty, iv.get(b), b)
            if ty == 'i1': return True
            if p == 'eq' and val:
                lo, hi = max(A[0], B[0]), min(A[1], B[1])
                ok = True
                if is_node(a): ok = iv.refine(a, lo, hi, False)
                if ok and is_node(b): ok = iv.refine(b, lo, hi, False)
                return ok
            if p == 'eq' and not val:
                for x, y, X, Y in ((a, b, A, B), (b, a, B, A)):
                    if is_node(x) and Y[0] == Y[1]:
                        if X[0] == Y[0]: return iv.refine(x, Y[0] + 1, X[1], False)
                        if X[1] == Y[0]: return iv.refine(x, X[0], Y[0] - 1, False)
                return True
            if p == 'slt' or (p == 'ult' and A[0] >= 0 and B[0] >= 0):
                ok = True
                if val:
                    if is_node(a): ok = iv.refine(a, A[0], B[1] - 1, False)
                    if ok and is_node(b): ok = iv.refine(b, A[0] + 1, B[1], False)
                else:
                    if is_node(a): ok = iv.refine(a, B[0], A[1], False)
                    if ok and is_node(b): ok = iv.refine(b, B[0], A[1], False)
                return ok
            if p == 'ult' and val and B[0] >= 0 and B[0] == B[1]:
                if is_node(a): return iv.refine(a, 0, B[1] - 1, False)
        return True

    def decide(self, st, c):
        """known truth value of c under the path or None"""
        if not is_node(c): return c
        val = 1; n = c
        while n.op == 'not': n = n.args[0]; val = 1 - val
        k = st.pcset.get(n.id)
        if k is not None: return 1 if k == val else 0
        iv = st.iv.get(n)
        if iv[0] == iv[1]: return 1 if iv[0] == val else 0
        if n.op == 'band':
            a = self.decide(st, n.args[0]); b = self.decide(st, n.args[1])
            if a == 0 or b == 0: return 1 - val
            if a == 1 and b == 1: return val
        return None

    def branch(self, st, c):
        """-> truth value for st (forking the other side onto the worklist)"""
        d = self.decide(st, c)
        if d is not None: return d
        o = st.fork()
        self.stat['forks'] += 1
        okt = self.assume(st, c)
        okf = self.assume(o, bnot(c))
        if okt and okf and self.feas:
            okt = self.feas(st, c)
            okf = self.feas(o, bnot(c)) if okt else True
        if not okt and not okf:
            raise Abort('infeasible')
        if okt and okf:
            o.resume_decision = (c, 0)
            self.work.append((o, c, 0))
            return 1
        self.stat['pruned'] += 1
        if okt: return 1
        # keep st as the false side: transfer o's condition
        st.pc = o.pc; st.pcset = o.pcset; st.iv = o.iv
        return 0

    def concretize(self, st, n):
        """fork over the concrete values of an integer/pointer node"""
        if not is_node(n): return n
        vals = self.values_of(st, n)
        ty = n.ty if n.ty != 'ptr' else 'i64'
        for v in vals[:-1]:
            if self.branch(st, icmp('eq', ty, n, v)): return v
        if not self.assume(st, icmp('eq', ty, n, vals[-1])): raise Abort('infeasible')
        return vals[-1]

    def values_of(self, st, n):
        s = set()
        def leaves(x):
            if not is_node(x): s.add(x); return True
            if x.op == 'select': return leaves(x.args[1]) and leaves(x.args[2])
            return False
        if leaves(n): return sorted(s)
        iv = st.iv.get(n)
        if iv[1] - iv[0] <= 512:
            m = mask(n.ty if n.ty != 'ptr' else 'i64')
            return [v & m for v in range(iv[0], iv[1] + 1)]
        raise Unsupported('cannot concretise ' + show(n, 3))

    # ------------------------------------------------------------ running
    def run_globals(self, entry_names=None):
        st = State()
        ctors = self.mod.globals.get('@llvm.global_ctors')
        names = re_ctors(ctors) if ctors else []
        for nm in names:
            res = self.run(st, nm, [])
            assert len(res) == 1, (nm, len(res))
            if res[0][1] != 'ok': raise Unsupported('global ctor %s: %s' % (nm, res[0]))
            st = res[0][0]
            st.frames = []
        return st

    def run(self, st, fname, args):
        """explore; returns list of (state, outcome, detail)"""
        self.work = []
        out = []
        self.enter(st, fname, args, None)
        cur = st
        while True:
            try:
                self.loop(cur)
                outcome, det = 'ok', ''
            except Abort as e:
                outcome, det = e.kind, e.detail
            if outcome != 'infeasible':
                out.append((cur, outcome, det)); self.stat['paths'] += 1
                if self.release: cur.objs = cur.exc = None; cur.frames = []     # a finished path needs no memory contents
            if len(out) > self.max_paths: raise Unsupported('path limit %d' % self.max_paths)
            if self.deadline and time.time() > self.deadline: raise Unsupported('time limit during exploration')
            if not self.work: break
            cur, c, v = self.work.pop()
            # re-execute the instruction that forked; decide() now answers from pcset
        return out

    def enter(self, st, fname, args, call):
        f = self.mod.function(fname)
        self.stat['funcs'].add(fname)
        fr = Frame(f)
        fr.call = call
        for (nm, t), v in zip(f.params, args): fr.regs[nm] = v
        st.frames.append(fr)
        if len(st.frames) > 400: raise Abort('stack', 'recursion too deep')

    def val(self, fr, o):
        k = o[0]
        if k == 'r': return fr.regs[o[1]]
        if k == 'c': return o[1]
        if k == 'g': return self.addr_of(o[1])
        if k == 'undef': return self.undef(o[1])
        if k == 'agg': return tuple(self.val(fr, x) for x in o[1])
        return self.cval(o)

    def undef(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'struct': return tuple(self.undef(t) for t in ty[2])
        if ty[0] in ('array', 'vector'): return tuple(self.undef(ty[2]) for _ in range(ty[1]))
        self._u = getattr(self, '_u', 0) + 1
        return var('undef!%d' % self._u, ll.tyname(self.mod, ty), None)

    def loop(self, st):
        val = self.val
        while st.frames:
            fr = st.frames[-1]
            code = fr.fn.blocks[fr.blk]
            regs = fr.regs
            while True:
                ins = code[fr.idx]
                st.steps += 1
                op = ins[0]
                if op == 'load':
                    _, d, t, a = ins
                    p = val(fr, a)
                    regs[d] = self.load_ty(st, p, t)
                elif op == 'gep':
                    _, d, b, off, vs = ins
                    p = val(fr, b)
                    if off: p = self.padd(p, off)
                    for sc, iv, ity in vs:
                        x = val(fr, iv)
                        if is_node(x):
                            x = self.concretize(st, x)
                        w = int(ity[1:])
                        if x >> (w - 1): x -= 1 << w
                        p = self.padd(p, x * sc)
                    regs[d] = p
                elif op == 'store':
                    _, d, t, v, a = ins
                    self.store_ty(st, val(fr, a), t, val(fr, v))
                elif op == 'br':
                    _, d, c, a, b = ins
                    x = val(fr, c)
                    if is_node(x): x = self.branch(st, x)
                    self.jump(fr, a if x else b)
                    code = fr.fn.blocks[fr.blk]
                    continue
                elif op == 'jmp':
                    self.jump(fr, ins[2])
                    code = fr.fn.blocks[fr.blk]
                    continue
                elif op == 'bin':
                    _, d, o, ty, a, b = ins
                    x = val(fr, a); y = val(fr, b)
                    if ty.__class__ is tuple:
                        et = ll.tyname(self.mod, ty[2])
                        regs[d] = tuple(self.bin(st, o, et, p, q) for p, q in zip(x, y))
                    else:
                        regs[d] = self.bin(st, o, ty, x, y)
                elif op == 'call':
                    r = self.docall(st, fr, ins)
                    if r: break
                    if fr.idx < 0:
                        pass
                    # builtin finished
                    if ins[5] is not None:
                        self.jump(fr, ins[5])
                        code = fr.fn.blocks[fr.blk]
                        continue
                elif op == 'icmp':
                    _, d, pr, ty, a, b = ins
                    x = val(fr, a); y = val(fr, b)
                    if ty == 'ptr': ty = 'i64'
                    regs[d] = icmp(pr, ty, x, y)
                elif op == 'fcmp':
                    _, d, pr, ty, a, b = ins
                    x = fcmp(pr, val(fr, a), val(fr, b))
                    if is_node(x):
                        k = self.decide(st, x)
                        if k is not None: x = k
                    regs[d] = x
                elif op == 'select':
                    _, d, ty, c, a, b = ins
                    cv = val(fr, c)
                    x, y = val(fr, a), val(fr, b)
                    if is_node(cv):
                        k = self.decide(st, cv)
                        if k is not None: cv = k
                    if is_node(cv) and (ty.__class__ is tuple):
                        cv = self.branch(st, cv)
                    if not is_node(cv): regs[d] = x if cv else y
                    else: regs[d] = dag.select(cv, x, y, ty)
                elif op == 'cast':
                    _, d, o, t1, t2, a = ins
                    x = val(fr, a)
                    if t1.__class__ is tuple or t2.__class__ is tuple: raise Unsupported('vector cast')
                    if o == 'fptosi' and not is_node(x) and not (abs(x) < 2.0**(width(t2) - 1)):
                        st.flags.add('fptosi-overflow')
                    regs[d] = cast(o, t1, t2, x)
                elif op == 'alloca':
                    _, d, sz, n = ins
                    a = self.alloc(st, sz * val(fr, n), 'stack', fr.fn.name + d)
                    fr.allocas.append(a >> 32)
                    regs[d] = a
                elif op == 'ret':
                    v = val(fr, ins[2]) if ins[2] is not None else None
                    for i in fr.allocas:
                        st.objs.pop(i, None)
                    st.frames.pop()
                    self.stat['instrs'] += st.steps; st.steps = 0
                    if not st.frames:
                        st.ret = v
                        return
                    c = fr.call
                    up = st.frames[-1]
                    if c[1] is not None: up.regs[c[1]] = v
                    if c[5] is not None: self.jump(up, c[5])
                    else: up.idx += 1
                    break
                elif op == 'fneg':
                    regs[ins[1]] = fop('fneg', ins[2], val(fr, ins[3]))
                elif op == 'switch':
                    _, d, ty, v, dflt, cases = ins
                    x = val(fr, v)
                    tgt = dflt
                    if is_node(x):
                        for k, l in cases:
                            if self.branch(st, icmp('eq', ty, x, k)):
                                tgt = l; break
                    else:
                        for k, l in cases:
                            if k == x: tgt = l; break
                    self.jump(fr, tgt)
                    code = fr.fn.blocks[fr.blk]
                    continue
                elif op == 'extractvalue':
                    x = val(fr, ins[2])
                    for i in ins[3]: x = x[i]
                    regs[ins[1]] = x
                elif op == 'insertvalue':
                    _, d, t, v, e, idx = ins
                    x = val(fr, v); e = val(fr, e)
                    regs[d] = insert(x, e, idx)
                elif op == 'extractelement':
                    regs[ins[1]] = val(fr, ins[2])[val(fr, ins[3])]
                elif op == 'insertelement':
                    _, d, t, v, e, i = ins
                    x = list(val(fr, v)); x[val(fr, i)] = val(fr, e); regs[d] = tuple(x)
                elif op == 'shufflevector':
                    _, d, t, a, b, mt, mk = ins
                    x = tuple(val(fr, a)) + tuple(val(fr, b))
                    mk = val(fr, mk)
                    regs[d] = tuple(x[m] if not is_node(m) else x[0] for m in mk)
                elif op == 'freeze':
                    regs[ins[1]] = val(fr, ins[2])
                elif op == 'landingpad':
                    exc, ti = st.cur
                    sel = 0
                    for cl in ins[2]:
                        if cl[0] == 'catch':
                            c = self.val(fr, cl[1])
                            if c == 0 or self.catches(ti, c):
                                sel = (c >> 32) or 1; break
                    regs[ins[1]] = (exc, sel)
                elif op == 'resume':
                    x = val(fr, ins[2])
                    exc = x[0]
                    self.unwind(st, exc, st.exc[exc], first=False)
                    break
                elif op == 'unreachable':
                    raise Abort('unreachable', 'unreachable executed in ' + fr.fn.name)
                elif op == 'atomicrmw':
                    _, d, o, ty, a, v = ins
                    p = val(fr, a); n = width(ty) // 8
                    old = self.load(st, p, n, ty)
                    y = val(fr, v)
                    self.store(st, p, n, iop(o, ty, old, y) if o != 'xchg' else y)
                    regs[d] = old
                else:
                    raise Unsupported(op)
                fr.idx += 1
            if st.steps > 200000:
                self.stat['instrs'] += st.steps
                self.total = getattr(self, 'total', 0) + st.steps
                st.steps = 0
                if self.total > self.max_steps: raise Unsupported('step limit')
                if self.deadline and time.time() > self.deadline: raise Unsupported('time limit during exploration')

    def bin(self, st, o, ty, x, y):
        if o[0] == 'f':
            if o == 'frem': return self.libm(st, 'fmod' + ('f' if ty == 'f32' else ''), x, y)
            return fop(o, ty, x, y)
        if o in ('udiv', 'sdiv', 'urem', 'srem'):
            if not is_node(y) and y == 0: raise Abort('divzero', 'integer division by zero')
            if is_node(y):
                if self.branch(st, icmp('eq', ty, y, 0)): raise Abort('divzero', 'integer division by zero')
        if ty == 'ptr': ty = 'i64'
        return iop(o, ty, x, y)

    def padd(self, p, k):
        if k == 0: return p
        if is_node(p):
            if p.op == 'select':
                return dag.select(p.args[0], self.padd(p.args[1], k), self.padd(p.args[2], k), 'ptr')
            return iop('add', 'i64', p, k & mask('i64'))
        return (p + k) & mask('i64')

    def load_ty(self, st, p, t):
        k = t[0]
        if k == 'ptr': return self.load(st, p, 8, 'ptr')
        if k == 'float': return self.load(st, p, 4, 'f32')
        if k == 'double': return self.load(st, p, 8, 'f64')
        if k == 'int':
            n = self.mod.size_align(t)[0]
            return self.load(st, p, n, 'i%d' % t[1])
        if k == 'vector' or k == 'array':
            sz = self.mod.size_align(t[2])[0]
            et = self.mod.resolve(t[2])
            return tuple(self.load_ty(st, self.padd(p, i * sz), et) for i in range(t[1]))
        if k == 'struct':
            return tuple(self.load_ty(st, self.padd(p, self.mod.field_off(t, i)[0]), self.mod.resolve(x)) for i, x in enumerate(t[2]))
        raise Unsupported('load %s' % (t,))

    def store_ty(self, st, p, t, v):
        k = t[0]
        if k == 'ptr': self.store(st, p, 8, v)
        elif k == 'float': self.store(st, p, 4, v)
        elif k == 'double': self.store(st, p, 8, v)
        elif k == 'int':
            n = self.mod.size_align(t)[0]
            if t[1] == 1 and is_node(v): v = cast('zext', 'i1', 'i8', v)
            self.store(st, p, n, v)
        elif k in ('vector', 'array'):
            sz = self.mod.size_align(t[2])[0]
            et = self.mod.resolve(t[2])
            for i in range(t[1]): self.store_ty(st, self.padd(p, i * sz), et, v[i])
        elif k == 'struct':
            for i, x in enumerate(t[2]): self.store_ty(st, self.padd(p, self.mod.field_off(t, i)[0]), self.mod.resolve(x), v[i])
        else: raise Unsupported('store %s' % (t,))

    def jump(self, fr, tgt):
        prev = fr.blk
        fr.blk = tgt; fr.idx = 0; fr.prev = prev
        code = fr.fn.blocks[tgt]
        new = None
        i = 0
        while code[i][0] == 'phi':
            if new is None: new = []
            ins = code[i]
            new.append((ins[1], self.val(fr, ins[3][prev])))
            i += 1
        if new:
            for d, v in new: fr.regs[d] = v
        fr.idx = i

    # ------------------------------------------------------------ calls
    def docall(self, st, fr, ins):
        """True if control moved to another frame"""
        _, d, callee, args, rty, nl, ul = ins
        if callee[0] == 'g': name = callee[1]
        else:
            a = self.val(fr, callee)
            if is_node(a): a = self.concretize(st, a)
            name = self.gname.get(a >> 32)
            if name is None or (name not in self.mod.funcs and name not in self.mod.decls):
                raise Abort('badcall', 'call through invalid pointer %#x' % a)
        while name in self.mod.aliases: name = self.mod.aliases[name]
        h = self.H.get(name)
        if h is None and name.startswith('@llvm.'): h = self.intrinsic(name)
        if h is not None:
            vals = [self.val(fr, v) for _, v in args]
            r = h(st, fr, ins, vals)
            if r is MOVED: return True
            if d is not None: fr.regs[d] = r
            return False
        if name in self.mod.funcs:
            vals = [self.val(fr, v) for _, v in args]
            self.enter(st, name, vals, ins)
            return True
        nm = name[1:]
        if nm in LIBM:
            vals = [self.val(fr, v) for _, v in args]
            fr.regs[d] = self.libm(st, nm, *vals)
            return False
        if nm in FDIRECT:
            vals = [self.val(fr, v) for _, v in args]
            o, ty = FDIRECT[nm]
            fr.regs[d] = self.minmax(st, o, ty, *vals) if o in ('fmin', 'fmax') else fop(o, ty, *vals)
            return False
        if nm in ('lroundf', 'lround', 'lrintf'):
            x = self.val(fr, args[0][1]); ty = 'f32' if nm.endswith('f') else 'f64'
            fr.regs[d] = cast('fptosi', ty, 'i64', fop('fround' if 'round' in nm else 'froundeven', ty, x)); return False
        raise Unsupported('external ' + name)

    def libm(self, st, nm, *v):
        if nm in ('fmod', 'fmodf') and is_node(v[0]):
            # fmod(x, y) is x itself (exactly) when |x| < |y|
            X, Y = self.iv0.get(v[0]), self.iv0.get(v[1])
            if not X[2] and not Y[2] and Y[0] > 0 and max(abs(X[0]), abs(X[1])) < Y[0]: return v[0]
        return fcall(nm, *v)

    def minmax(self, st, o, ty, a, b):
        """fmin/fmax, simplified when the input ranges alone decide which operand is returned (never by path facts: the same
        computation must give the same node on every path)"""
        A, B = self.iv0.get(a), self.iv0.get(b)
        if not A[2] and not B[2] and A[0] <= A[1] and B[0] <= B[1]:
            if A[1] <= B[0]: return a if o == 'fmin' else b
            if B[1] <= A[0]: return b if o == 'fmin' else a
        return fop(o, ty, a, b)

    def intrinsic(self, name):
        n = name[6:]
        base = n.split('.')[0]
        def fl(o):
            ty = 'f32' if n.endswith('f32') else 'f64'
            if o in ('fmin', 'fmax'): return lambda st, fr, ins, v: self.minmax(st, o, ty, v[0], v[1])
            return lambda st, fr, ins, v: fop(o, ty, *v)
        if n.startswith(('memcpy', 'memmove')): return lambda st, fr, ins, v: self.memcpy(st, v[0], v[1], self.concretize(st, v[2]))
        if n.startswith('memset'): return lambda st, fr, ins, v: self.memset(st, v[0], v[1], self.concretize(st, v[2]))
        if base == 'lifetime' or base in ('assume', 'invariant', 'prefetch', 'donothing', 'stacksave', 'stackrestore', 'va_start', 'va_end'):
            return lambda st, fr, ins, v: None
        m = {'fabs': 'fabs', 'maxnum': 'fmax', 'minnum': 'fmin', 'round': 'fround', 'floor': 'ffloor', 'ceil': 'fceil', 'trunc': 'ftrunc', 'sqrt': 'fsqrt', 'roundeven': 'froundeven', 'rint': 'froundeven', 'nearbyint': 'froundeven', 'copysign': 'fcopysign'}.get(base)
        if m: return fl(m)
        if base == 'fmuladd':
            ty = 'f32' if n.endswith('f32') else 'f64'
            return lambda st, fr, ins, v: fop('fadd', ty, fop('fmul', ty, v[0], v[1]), v[2])
        if base in ('pow', 'sin', 'cos', 'exp', 'log', 'log10', 'exp2', 'log2') and n.endswith(('f32', 'f64')):
            fn = base + ('f' if n.endswith('f32') else '')
            return lambda st, fr, ins, v: self.libm(st, fn, *v)
        if base == 'powi':
            ty = 'f32' if '.f32' in n else 'f64'
            return lambda st, fr, ins, v: fcall('pow' + ('f' if ty == 'f32' else ''), v[0], float(signed('i32', v[1])))
        if base in ('trap', 'ubsantrap'):
            def t(st, fr, ins, v): raise Abort('trap', 'trap in ' + fr.fn.name)
            return t
        w = n.split('.')[-1]
        if base in ('smin', 'smax', 'umin', 'umax'):
            pr = base[0] + ('lt' if base.endswith('min') else 'gt')
            return lambda st, fr, ins, v: dag.select(icmp(pr, w, v[0], v[1]), v[0], v[1], w)
        if base == 'abs':
            return lambda st, fr, ins, v: dag.select(icmp('slt', w, v[0], 0), iop('sub', w, 0, v[0]), v[0], w)
        if base == 'usub': return lambda st, fr, ins, v: dag.select(icmp('ult', w, v[0], v[1]), 0, iop('sub', w, v[0], v[1]), w)
        if base == 'eh':
            return lambda st, fr, ins, v: (v[0] >> 32) or 1
        if n.startswith('umul.with.overflow'):
            def f(st, fr, ins, v):
                x, y = self.concretize(st, v[0]), self.concretize(st, v[1])
                return ((x * y) & mask(w), int(x * y > mask(w)))
            return f
        if n.startswith(('smul.with.overflow', 'sadd.with.overflow', 'uadd.with')):
            def f2(st, fr, ins, v):
                x, y = self.concretize(st, v[0]), self.concretize(st, v[1])
                if n[0] == 's': x, y = signed(w, x), signed(w, y)
                r = x * y if 'mul' in n else x + y
                k = r & mask(w)
                return (k, int((signed(w, k) if n[0] == 's' else k) != r))
            return f2
        if base == 'is' : return lambda st, fr, ins, v: 0
        if base == 'expect': return lambda st, fr, ins, v: v[0]
        if base == 'ctlz':
            return lambda st, fr, ins, v: width(w) - v[0].bit_length()
        if base == 'cttz':
            return lambda st, fr, ins, v: ((v[0] & -v[0]).bit_length() - 1) if v[0] else width(w)
        if base == 'bswap':
            return lambda st, fr, ins, v: int.from_bytes(v[0].to_bytes(width(w) // 8, 'little'), 'big')
        if base == 'objectsize': return lambda st, fr, ins, v: mask(w)
        if base == 'fshl': 
            return lambda st, fr, ins, v: iop('or', w, iop('shl', w, v[0], v[2]), iop('lshr', w, v[1], width(w) - v[2])) if v[2] else v[0]
        if base == 'fptosi':
            ty = 'f32' if n.endswith('f32') else 'f64'
            raise Unsupported(name)
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ exceptions
    def tiname(self, ti):
        return self.gname.get(ti >> 32, '?')[5:] if ti else ''

    def catches(self, thrown, c):
        if thrown == c: return True
        a, b = self.tiname(thrown), self.tiname(c)
        if a == b: return True
        if a.startswith('P') and b.startswith('P'): return self.derives(a[1:].lstrip('K'), b[1:].lstrip('K'))
        if b == 'Pv' and a.startswith('P'): return True
        return self.derives(a, b)

    def derives(self, a, b):
        while a:
            if a == b: return True
            nxt = STD_BASES.get(a)
            if nxt is None:
                g = self.mod.globals.get('@_ZTI' + a)
                if not g: return False
                import re
                m = re.search(r'__si_class_type_infoE.*@_ZTI([\w]+)', g)
                nxt = m.group(1) if m else None
            a = nxt
        return False

    def unwind(self, st, exc, ti, first=True):
        """pop frames until a landing pad; called with the throwing frame on top"""
        st.cur = (exc, ti)
        if first:
            # the throwing call itself may be an invoke in the top frame
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.idx]
        else:
            fr = st.frames.pop()
            for i in fr.allocas: st.objs.pop(i, None)
            if not st.frames: raise Abort('uncaught', self.tiname(ti))
            ins = fr.call
            fr = st.frames[-1]
        while True:
            if ins[0] == 'call' and ins[6] is not None:
                lp = next(i for i in fr.fn.blocks[ins[6]] if i[0] == 'landingpad')
                ok = False
                for cl in lp[2]:
                    if cl[0] == 'cleanup': ok = True
                    elif cl[0] == 'catch':
                        c = self.val(fr, cl[1])
                        if c == 0 or self.catches(ti, c): ok = True
                if ok:
                    self.jump(fr, ins[6])
                    return
            fr = st.frames.pop()
            for i in fr.allocas: st.objs.pop(i, None)
            if not st.frames: raise Abort('uncaught', self.tiname(ti))
            ins = fr.call
            fr = st.frames[-1]

    def throw_std(self, st, tiname):
        a = self.alloc(st, 16, 'exc')
        nm = '@_ZTI' + tiname
        if nm not in self.gid:
            k = max(self.gname) + 1
            self.gid[nm] = k; self.gname[k] = nm
        ti = self.gid[nm] << 32
        st.exc[a] = ti
        self.unwind(st, a, ti)
        return MOVED

    def x___cxa_allocate_exception(self, st, fr, ins, v): return self.alloc(st, v[0], 'exc')
    def x___cxa_free_exception(self, st, fr, ins, v): return None
    def x___cxa_throw(self, st, fr, ins, v):
        st.exc[v[0]] = v[1]
        self.unwind(st, v[0], v[1])
        return MOVED
    def x___cxa_begin_catch(self, st, fr, ins, v):
        st.caught.append(v[0])
        if self.tiname(st.exc[v[0]]).startswith('P'): return self.load(st, v[0], 8, 'ptr')
        return v[0]
    def x___cxa_get_exception_ptr(self, st, fr, ins, v): return v[0]
    def x___cxa_end_catch(self, st, fr, ins, v):
        if st.caught: st.caught.pop()
        return None
    def x___cxa_rethrow(self, st, fr, ins, v):
        e = st.caught[-1]
        self.unwind(st, e, st.exc[e])
        return MOVED
    def x__ZSt9terminatev(self, st, fr, ins, v): raise Abort('terminate', 'std::terminate')
    def x___clang_call_terminate(self, st, fr, ins, v): raise Abort('terminate', 'std::terminate')
    def x_abort(self, st, fr, ins, v): raise Abort('terminate', 'abort')
    def x___cxa_pure_virtual(self, st, fr, ins, v): raise Abort('terminate', 'pure virtual call')

    def _noop(self, st, fr, ins, v): return None
    x__ZNSt16invalid_argumentC1EPKc = _noop
    x__ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE = _noop
    x__ZNSt16invalid_argumentD1Ev = _noop
    x__ZNSt16invalid_argumentC1ERKS_ = _noop
    x__ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE = _noop
    x__ZNSt12out_of_rangeC1EPKc = _noop
    x__ZNSt12out_of_rangeD1Ev = _noop
    x__ZNSt11logic_errorC1EPKc = _noop
    x__ZNSt11logic_errorC2EPKc = _noop
    x__ZNSt13runtime_errorC1EPKc = _noop
    x__ZNSt13runtime_errorC2EPKc = _noop
    x__ZNSt12domain_errorC1EPKc = _noop
    x__ZNSt12length_errorC1EPKc = _noop
    x__ZNSt13runtime_errorD1Ev = _noop
    x__ZNSt11logic_errorD1Ev = _noop
    x__ZNSt12domain_errorD1Ev = _noop
    x__ZNSt9exceptionD2Ev = _noop
    x___cxa_guard_abort = _noop
    x___cxa_thread_atexit = _noop
    def x___cxa_atexit(self, st, fr, ins, v): return 0
    def x___cxa_guard_acquire(self, st, fr, ins, v):
        return 1 if self.load(st, v[0], 1, 'i8') == 0 else 0
    def x___cxa_guard_release(self, st, fr, ins, v): self.store(st, v[0], 1, 1)
    def _thr(n):
        def f(self, st, fr, ins, v): return self.throw_std(st, n)
        return f
    x__ZSt20__throw_length_errorPKc = _thr('St12length_error')
    x__ZSt28__throw_bad_array_new_lengthv = _thr('St20bad_array_new_length')
    x__ZSt17__throw_bad_allocv = _thr('St9bad_alloc')
    x__ZSt25__throw_bad_function_callv = _thr('St17bad_function_call')
    x__ZSt19__throw_logic_errorPKc = _thr('St11logic_error')
    x__ZSt20__throw_out_of_rangePKc = _thr('St12out_of_range')
    x__ZSt24__throw_out_of_range_fmtPKcz = _thr('St12out_of_range')
    x__ZSt24__throw_invalid_argumentPKc = _thr('St16invalid_argument')
    x__ZSt16__throw_bad_castv = _thr('St8bad_cast')

    # ------------------------------------------------------------ heap / C library
    def x__Znwm(self, st, fr, ins, v):
        n = self.concretize(st, v[0])
        if n > 1 << 28: return self.throw_std(st, 'St9bad_alloc')
        return self.alloc(st, n, 'heap', 'allocated in ' + fr.fn.name)
    x__Znam = x__Znwm
    x_malloc = x__Znwm
    def x__ZdlPv(self, st, fr, ins, v):
        p = v[0]
        if is_node(p): p = self.concretize(st, p)
        if p == 0: return None
        o = self.obj(st, p, True)
        if p & 0xffffffff or o.kind != 'heap': raise Abort('badfree', 'delete of a non-heap pointer')
        if not o.alive: raise Abort('badfree', 'double delete')
        o.alive = False
        return None
    x__ZdaPv = x__ZdlPv
    x_free = x__ZdlPv
    x__ZdlPvm = x__ZdlPv
    def x_strlen(self, st, fr, ins, v): 
        a = v[0]; n = 0
        while True:
            c = self.load(st, a + n, 1, 'i8')
            if is_node(c): c = 0 if self.branch(st, icmp('eq', 'i8', c, 0)) else 1
            if c == 0: return n
            n += 1
    def _cmp(self, st, a, b, n, strm):
        for i in range(n):
            x = self.load(st, a + i, 1, 'i8'); y = self.load(st, b + i, 1, 'i8')
            if is_node(x) or is_node(y):
                if not self.branch(st, icmp('eq', 'i8', x, y)):
                    return 1 if self.branch(st, icmp('ugt', 'i8', x, y)) else mask('i32')
                if strm and self.branch(st, icmp('eq', 'i8', x, 0)): return 0
            else:
                if x != y: return 1 if x > y else mask('i32')
                if strm and x == 0: return 0
        return 0
    def x_memcmp(self, st, fr, ins, v): return self._cmp(st, v[0], v[1], v[2], False)
    x_bcmp = x_memcmp
    def x_strcmp(self, st, fr, ins, v): return self._cmp(st, v[0], v[1], 1 << 20, True)
    def x_memchr(self, st, fr, ins, v):
        for i in range(v[2]):
            x = self.load(st, v[0] + i, 1, 'i8')
            c = icmp('eq', 'i8', x, v[1] & 255)
            if (self.branch(st, c) if is_node(c) else c): return v[0] + i
        return 0
    def x_memcpy(self, st, fr, ins, v):
        self.memcpy(st, v[0], v[1], self.concretize(st, v[2])); return v[0]
    x_memmove = x_memcpy
    def x_rand(self, st, fr, ins, v):
        st.ufresh += 1
        return self.new_input(st, 'rand!%d' % st.ufresh, 'i32', (0, 2147483647, False))
    def x___dynamic_cast(self, st, fr, ins, v):
        p, src, dst, hint = v
        vt = self.load(st, p, 8, 'ptr')
        ti = self.load(st, vt - 8, 8, 'ptr')
        return p if self.derives(self.tiname(ti), self.tiname(dst)) else 0
    # string helpers that stay out of line
    def _str_get(self, st, s):
        return self.load(st, s, 8, 'ptr'), self.load(st, s + 8, 8, 'i64')
    def _str_set(self, st, s, chars):
        n = len(chars)
        if n <= 15: p = s + 16
        else:
            p = self.alloc(st, n + 1, 'heap', 'string')
            self.store(st, s + 16, 8, n)
        self.store(st, s, 8, p); self.store(st, s + 8, 8, n)
        for i, c in enumerate(chars): self.store(st, p + i, 1, c)
        self.store(st, p + n, 1, 0)
    def _chars(self, st, p, n): return [self.load(st, p + i, 1, 'i8') for i in range(n)]
    def x__ZNSt7__cxx119to_stringEi(self, st, fr, ins, v):
        # exception messages only: the text of a symbolic number is not modelled
        self._str_set(st, v[0], [63] if is_node(v[1]) else [ord(c) for c in str(v[1] - (1 << 32) if v[1] >> 31 else v[1])])
    def x__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm(self, st, fr, ins, v):
        p, n = self._str_get(st, v[0]); s = self._chars(st, p, n)
        s[v[1]:v[1] + v[2]] = self._chars(st, v[3], v[4])
        self._str_set(st, v[0], s)
        return v[0]
    def x__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm(self, st, fr, ins, v):
        n = self.load(st, v[1], 8, 'i64')
        return self.alloc(st, n + 1, 'heap', 'string')
    def x__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm(self, st, fr, ins, v):
        p, n = self._str_get(st, v[0])
        self._str_set(st, v[0], self._chars(st, p, n) + self._chars(st, v[1], self.concretize(st, v[2])))
        return v[0]
    def x__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE14_M_replace_auxEmmmc(self, st, fr, ins, v):
        p, n = self._str_get(st, v[0]); s = self._chars(st, p, n)
        s[v[1]:v[1] + v[2]] = [v[4]] * v[3]
        self._str_set(st, v[0], s)
        return v[0]
    def x__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_mutateEmmPKcm(self, st, fr, ins, v):
        p, n = self._str_get(st, v[0]); s = self._chars(st, p, n)
        s[v[1]:v[1] + v[2]] = self._chars(st, v[3], v[4]) if v[3] else [0] * v[4]
        self._str_set(st, v[0], s)
    def x__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7reserveEm(self, st, fr, ins, v): return None
    def x__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_(self, st, fr, ins, v):
        p, n = self._str_get(st, v[1]); self._str_set(st, v[0], self._chars(st, p, n))
    def x__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE12_M_constructEmc(self, st, fr, ins, v):
        self._str_set(st, v[0], [v[2] & 255] * v[1])
    def x__ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC2EPKcmRKS3_(self, st, fr, ins, v):
        self._str_set(st, v[0], self._chars(st, v[1], self.concretize(st, v[2])))

    # ------------------------------------------------------------ <regex>/scanf contracts (see shim_sym/regex, sscanf)
    def x_cm_regex_match(self, st, fr, ins, v):
        import rx
        s = self._chars(st, v[0], self.concretize(st, v[1]))
        pat = bytes(self._chars(st, v[2], v[3])).decode('latin1')
        return rx.match(self, st, pat, s, bool(v[4]), bool(v[5]))
    def x___isoc23_sscanf(self, st, fr, ins, v):
        import rx
        return rx.sscanf(self, st, v)
    x_sscanf = x___isoc23_sscanf
    x___isoc99_sscanf = x___isoc23_sscanf

    # ------------------------------------------------------------ harness API
    def new_input(self, st, name, ty, info):
        k = st.names.get(name, 0)
        st.names[name] = k + 1
        if k: name = '%s#%d' % (name, k)
        if self.concrete is not None:
            x = self.concrete.get(name)
            if x is None: x = self.default_input(name, ty, info)
            if ty[0] == 'f': x = rnd(ty, x)
            else: x = int(x) & mask(ty)
            st.inputs.append((name, ty, x))
            return x
        n = var(name, ty, info)
        st.inputs.append((name, ty, n))
        return n
    def default_input(self, name, ty, info):
        if ty[0] == 'f':
            return info[0] + (info[1] - info[0]) * 0.37 if info and math.isfinite(info[0]) else 0.37
        return info[0]
    def x_sym_f32(self, st, fr, ins, v):
        return self.new_input(st, self.pystr(st, v[0]), 'f32', (v[1], v[2], False))
    def x_sym_f32_any(self, st, fr, ins, v):
        return self.new_input(st, self.pystr(st, v[0]), 'f32', None)
    def x_sym_int(self, st, fr, ins, v):
        lo, hi = signed('i32', v[1]), signed('i32', v[2])
        return self.new_input(st, self.pystr(st, v[0]), 'i32', (lo, hi, False))
    def x_sym_choice(self, st, fr, ins, v):
        """concrete fork over 0..n-1"""
        name = self.pystr(st, v[0]); n = v[1]
        if self.concrete is not None:
            x = self.new_input(st, name, 'i32', (0, n - 1, False)); return x
        key = ('choice', len(st.inputs), name)
        pend = getattr(st, 'pend', None)
        if pend is not None:
            st.pend = None
            val = pend
        else:
            for k in range(n - 1, 0, -1):
                o = st.fork(); o.pend = k
                self.work.append((o, None, None))
            val = 0
        st.inputs.append((name, 'i32', val))
        st.choices.append(val)
        return val
    def x_sym_assume(self, st, fr, ins, v):
        c = v[0]
        c = self.tobool(c)
        if is_node(c):
            d = self.decide(st, c)
            if d == 0: raise Abort('infeasible')
            if not self.assume(st, c): raise Abort('infeasible')
        elif not c: raise Abort('infeasible')
    def tobool(self, c):
        if is_node(c) and c.ty != 'i1':
            return bnot(icmp('eq', c.ty, c, 0))
        return c
    def x_chk(self, st, fr, ins, v):
        c = self.tobool(v[0])
        d = self.decide(st, c) if is_node(c) else (1 if c else 0)
        st.checks.append(('bool', self.pystr(st, v[1]), (c,), len(st.pc)))
        return None
    def x_chk_near(self, st, fr, ins, v):
        st.checks.append(('near', self.pystr(st, v[3]), (v[0], v[1], v[2]), len(st.pc)))
    def x_chk_same(self, st, fr, ins, v):
        st.checks.append(('same', self.pystr(st, v[2]), (v[0], v[1]), len(st.pc)))
    def x_chk_range(self, st, fr, ins, v):
        st.checks.append(('range', self.pystr(st, v[3]), (v[0], v[1], v[2]), len(st.pc)))
    def x_out(self, st, fr, ins, v):
        st.outs.append((self.pystr(st, v[1]), v[0]))

class _M: pass
MOVED = _M()
FDIRECT = {'fmaxf': ('fmax', 'f32'), 'fminf': ('fmin', 'f32'), 'fmax': ('fmax', 'f64'), 'fmin': ('fmin', 'f64'), 'sqrtf': ('fsqrt', 'f32'), 'sqrt': ('fsqrt', 'f64'),
           'fabsf': ('fabs', 'f32'), 'fabs': ('fabs', 'f64'), 'floorf': ('ffloor', 'f32'), 'floor': ('ffloor', 'f64'), 'ceilf': ('fceil', 'f32'), 'ceil': ('fceil', 'f64'),
           'roundf': ('fround', 'f32'), 'round': ('fround', 'f64'), 'truncf': ('ftrunc', 'f32'), 'trunc': ('ftrunc', 'f64'), 'rintf': ('froundeven', 'f32'), 'copysignf': ('fcopysign', 'f32')}

def insert(x, e, idx):
    l = list(x)
    if len(idx) == 1: l[idx[0]] = e
    else: l[idx[0]] = insert(l[idx[0]], e, idx[1:])
    return tuple(l)

def re_ctors(txt):
    import re
    items = re.findall(r'\{ i32 (\d+), ptr (@[\w.$]+|@"[^"]*")', txt)
    return [ll.Module._clean(n) for _, n in sorted(items, key=lambda z: int(z[0]))]
