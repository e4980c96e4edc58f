"""Interval domain over dag nodes.  Bounds enclose the *computed* (rounded) value: round-to-nearest is monotone,
so applying the machine operation to the endpoints gives exact enclosures for + - * / sqrt; libm calls are widened."""
import math
from dag import *
INF = math.inf
TOP = (-INF, INF, True)

def widen(ty, lo, hi, k=4):
    if ty == 'f32':
        for _ in range(k):
            lo = float(np.nextafter(np.float32(lo), np.float32(-INF))) if lo == lo else lo
            hi = float(np.nextafter(np.float32(hi), np.float32(INF))) if hi == hi else hi
    else:
        for _ in range(k):
            lo = float(np.nextafter(lo, -INF)); hi = float(np.nextafter(hi, INF))
    return lo, hi

def _mulb(ty, a, b):
    if a == 0 or b == 0: return 0.0
    return cfloat('fmul', ty, (a, b))

class Iv:
    """interval evaluator with a set of refinements (from path conditions)"""
    __slots__ = ('ref', 'memo')
    def __init__(self, ref=None):
        self.ref = dict(ref) if ref else {}
        self.memo = {}
    def copy(self):
        n = Iv(self.ref)
        n.memo = dict(self.memo)
        return n
    def get(self, x):
        if not is_node(x):
            if isinstance(x, float):
                return (x, x, False) if x == x else (INF, -INF, True)
            return (x, x, False)
        r = self.memo.get(x.id)
        if r is not None: return r
        for n in topo([x]):
            if n.id in self.memo: continue
            v = self.comp(n)
            rf = self.ref.get(n.id)
            if rf is not None:
                v = (max(v[0], rf[0]), min(v[1], rf[1]), v[2] and rf[2])
            self.memo[n.id] = v
        return self.memo[x.id]

    def refine(self, n, lo, hi, nan):
        """intersect; returns False if empty"""
        cur = self.get(n)
        v = (max(cur[0], lo), min(cur[1], hi), cur[2] and nan)
        if v == cur:
            return not (v[0] > v[1] and not v[2])
        if v[0] > v[1] and not v[2]: return False
        self.ref[n.id] = v
        self.memo = {}
        return self._back(n, v)

    def _back(self, n, v):
        """cheap backward contraction (only where exactly invertible up to rounding slack)"""
        if v[2]: return True
        op = n.op
        lo, hi, _ = v
        if op == 'fmin' or op == 'fmax':
            a, b = n.args
            # fmin(a,b)>=lo  => a>=lo (or NaN) and b>=lo (or NaN)
            for x in (a, b):
                if is_node(x):
                    c = self.get(x)
                    if op == 'fmin' and lo > c[0]:
                        if not self.refine(x, lo, INF, c[2]): return False
                    if op == 'fmax' and hi < c[1]:
                        if not self.refine(x, -INF, hi, c[2]): return False
        elif op == 'call' and n.attr == 'pow' and is_node(n.args[0]) and not is_node(n.args[1]) and n.args[1] > 0:
            # x -> x^c is increasing on x >= 0 (the slack covers the library's rounding)
            x = n.args[0]; c = n.args[1]; cur = self.get(x)
            if cur[0] >= 0 and not cur[2] and 0.01 < c < 100:
                sl = (1e-6 if n.ty == 'f32' else 1e-14) * max(1, 1 / c)
                try:
                    nl = (max(lo, 0.0) ** (1 / c)) * (1 - sl) if math.isfinite(lo) else -INF
                    nh = (max(hi, 0.0) + 1e-44) ** (1 / c) * (1 + sl) if math.isfinite(hi) else INF
                except OverflowError: return True
                if nl > cur[0] or nh < cur[1]: return self.refine(x, nl, nh, False)
        elif op == 'fneg':
            x = n.args[0]
            if is_node(x): return self.refine(x, -hi, -lo, False)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv') and any(not is_node(a) for a in n.args) and is_node(n.args[0]) and math.isfinite(lo) | math.isfinite(hi):
            a, c = n.args
            if is_node(c) or not math.isfinite(c): return True
            if op == 'fadd': nl, nh = lo - c, hi - c
            elif op == 'fsub': nl, nh = lo + c, hi + c
            elif op == 'fmul':
                if abs(c) < 1e-20: return True
                nl, nh = lo / c, hi / c
                if c < 0: nl, nh = nh, nl
            else:
                if abs(c) > 1e20 or c == 0: return True
                nl, nh = lo * c, hi * c
                if c < 0: nl, nh = nh, nl
            sl = (2e-7 if n.ty == 'f32' else 1e-15)
            w = lambda z: sl * (abs(z) + abs(c) if op in ('fadd', 'fsub') else abs(z)) + 1e-44
            cur = self.get(a)
            nl2 = nl - w(nl) if math.isfinite(nl) else nl
            nh2 = nh + w(nh) if math.isfinite(nh) else nh
            if nl2 > cur[0] or nh2 < cur[1] or cur[2]:
                return self.refine(a, nl2, nh2, False)
        return True

    def comp(self, n):
        op = n.op
        if op == 'var':
            info = n.attr[1]
            if info is not None: return info
            if n.ty[0] == 'f': return TOP
            w = width(n.ty)
            return (0, 1, False) if w == 1 else (-(1 << (w - 1)), (1 << (w - 1)) - 1, False)
        A = [self.memo[a.id] if is_node(a) else self.get(a) for a in n.args]
        ty = n.ty
        if n.ty[0] == 'f':
            if op == 'select':
                c = A[0]
                if c[0] == c[1]: return A[1] if c[0] else A[2]
                x, y = A[1], A[2]
                return (min(x[0], y[0]), max(x[1], y[1]), x[2] or y[2])
            if op == 'cast':
                k = n.attr[0]; a = A[0]
                if k in ('fpext',): return a
                if k == 'fptrunc': return (r32(a[0]), r32(a[1]), a[2])
                if k in ('sitofp', 'uitofp'):
                    if k == 'uitofp' and a[0] < 0: return (0.0, float(1 << width(n.attr[1])), False)
                    return (rnd(ty, float(a[0])), rnd(ty, float(a[1])), False)
                return TOP
            nan = any(a[2] for a in A)
            # possibly-empty numeric part
            if any(a[0] > a[1] for a in A) and op not in ('fmin', 'fmax'):
                return (INF, -INF, True)
            if op == 'fadd' or op == 'fsub':
                a, b = A
                if op == 'fsub': b = (-b[1], -b[0], b[2])
                lo = cfloat('fadd', ty, (a[0], b[0])) if not (math.isinf(a[0]) and math.isinf(b[0]) and a[0] != b[0]) else -INF
                hi = cfloat('fadd', ty, (a[1], b[1])) if not (math.isinf(a[1]) and math.isinf(b[1]) and a[1] != b[1]) else INF
                if (a[0] == -INF and b[1] == INF) or (a[1] == INF and b[0] == -INF): nan = True
                if n.args[0] is n.args[1] and op == 'fsub': return (0.0, 0.0, nan or math.isinf(a[0]) or math.isinf(a[1]))
                if lo <= 0 < hi and math.isfinite(lo) and math.isfinite(hi):
                    q = self.affine(n)
                    if q is not None: lo, hi = max(lo, q[0]), min(hi, q[1])
                return (lo, hi, nan)
            if op == 'fmul':
                a, b = A
                if n.args[0] is n.args[1]:
                    m = max(abs(a[0]), abs(a[1])); l = 0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
                    return (_mulb(ty, l, l), _mulb(ty, m, m), nan)
                c = [_mulb(ty, x, y) for x in a[:2] for y in b[:2]]
                has0 = lambda z: z[0] <= 0 <= z[1]
                hasi = lambda z: math.isinf(z[0]) or math.isinf(z[1])
                if (has0(a) and hasi(b)) or (has0(b) and hasi(a)): nan = True
                return (min(c), max(c), nan)
            if op == 'fdiv':
                a, b = A
                if math.isinf(a[0]) or math.isinf(a[1]):
                    if math.isinf(b[0]) or math.isinf(b[1]): nan = True
                if b[0] <= 0 <= b[1]:
                    if a[0] <= 0 <= a[1]: nan = True
                    if b[0] == 0 and a[0] >= 0 and a[0] <= a[1]:
                        lo = 0.0 if math.isinf(b[1]) else cfloat('fdiv', ty, (a[0], b[1])) if b[1] > 0 else 0.0
                        q = self.ratio(n, a)
                        if q is not None and not _maybe_negzero(n.args[1]): return (lo, q, nan)
                        return (-INF if True and b[0] == 0 and a[1] > 0 and _maybe_negzero(n.args[1]) else min(lo, INF), INF, nan)
                    return (-INF, INF, nan)
                c = []
                for x in a[:2]:
                    for y in b[:2]:
                        if math.isinf(x) and math.isinf(y): c += [0.0, math.copysign(INF, x) * math.copysign(1, y)]
                        else: c.append(cfloat('fdiv', ty, (x, y)))
                if b[0] > 0 and a[0] >= 0 and not nan:
                    q = self.ratio(n, a)
                    if q is not None: return (min(c), min(max(c), q), nan)
                return (min(c), max(c), nan)
            if op == 'fneg': return (-A[0][1], -A[0][0], nan)
            if op == 'fabs':
                a = A[0]
                return (0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])), max(abs(a[0]), abs(a[1])), nan)
            if op == 'fsqrt':
                a = A[0]
                if a[0] < 0: nan = True
                if a[1] < 0: return (INF, -INF, True)
                return (cfloat(op, ty, (max(a[0], 0.0),)), cfloat(op, ty, (a[1],)), nan)
            if op in ('fmin', 'fmax'):
                a, b = A
                f = min if op == 'fmin' else max
                nan2 = a[2] and b[2]
                lo, hi = f(a[0], b[0]), f(a[1], b[1])
                ae, be = a[0] > a[1], b[0] > b[1]
                if ae and be: return (INF, -INF, nan2)
                if ae: lo, hi = b[0], b[1]
                elif be: lo, hi = a[0], a[1]
                else:
                    if a[2]: lo, hi = min(lo, b[0]), max(hi, b[1])
                    if b[2]: lo, hi = min(lo, a[0]), max(hi, a[1])
                return (lo, hi, nan2)
            if op in ('fround', 'ffloor', 'fceil', 'ftrunc', 'froundeven'):
                a = A[0]
                return (cfloat(op, ty, (a[0],)), cfloat(op, ty, (a[1],)), nan)
            if op == 'fcopysign':
                m = max(abs(A[0][0]), abs(A[0][1])); return (-m, m, nan)
            if op == 'call': return self.call(n, A, nan)
            return TOP
        # ---- integers / booleans
        if op == 'fcmp':
            a, b = A
            p = n.attr
            if p == 'ord':
                if not a[2] and not b[2]: return (1, 1, False)
                if a[0] > a[1] or b[0] > b[1]: return (0, 0, False)
                return (0, 1, False)
            if a[0] > a[1] or b[0] > b[1]: return (0, 0, False)
            nn = not a[2] and not b[2]
            if p == 'olt':
                if nn and a[1] < b[0]: return (1, 1, False)
                if a[0] >= b[1]: return (0, 0, False)
            elif p == 'ole':
                if nn and a[1] <= b[0]: return (1, 1, False)
                if a[0] > b[1]: return (0, 0, False)
            elif p == 'oeq':
                if nn and a[0] == a[1] == b[0] == b[1]: return (1, 1, False)
                if a[1] < b[0] or b[1] < a[0]: return (0, 0, False)
            return (0, 1, False)
        if op == 'not':
            a = A[0]; return (1 - a[1], 1 - a[0], False)
        if op == 'band': return (A[0][0] & A[1][0], A[0][1] & A[1][1], False)
        if op == 'select':
            c = A[0]
            if c[0] == c[1]: return A[1] if c[0] else A[2]
            return (min(self.sg(n.ty, A[1], n.args[1])[0], self.sg(n.ty, A[2], n.args[2])[0]), max(self.sg(n.ty, A[1], n.args[1])[1], self.sg(n.ty, A[2], n.args[2])[1]), False)
        w = width(n.ty)
        full = (0, 1, False) if w == 1 else (-(1 << (w - 1)), (1 << (w - 1)) - 1, False)
        if op == 'icmp':
            p, ty = n.attr
            a, b = self.sg(ty, A[0], n.args[0]), self.sg(ty, A[1], n.args[1])
            if p[0] == 'u' and (a[0] < 0 or b[0] < 0): return (0, 1, False)
            if p == 'eq':
                if a[0] == a[1] == b[0] == b[1]: return (1, 1, False)
                if a[1] < b[0] or b[1] < a[0]: return (0, 0, False)
            elif p[1:] == 'lt':
                if a[1] < b[0]: return (1, 1, False)
                if a[0] >= b[1]: return (0, 0, False)
            return (0, 1, False)
        if op == 'cast':
            k = n.attr[0]
            if k in ('zext',):
                a = A[0]
                if a[0] >= 0: return a
                return (0, (1 << width(n.attr[1])) - 1, False)
            if k == 'sext': return self.sg(n.attr[1], A[0], n.args[0])
            if k == 'fptosi':
                a = A[0]
                if a[2] or not (math.isfinite(a[0]) and math.isfinite(a[1])): return full
                lo, hi = int(a[0]), int(a[1])
                if lo < full[0] or hi > full[1]: return full
                return (lo, hi, False)
            if k == 'trunc':
                a = A[0]
                if a[0] >= full[0] and a[1] <= full[1]: return a
            return full
        if w == 1: return full
        a = self.sg(n.ty, A[0], n.args[0]); b = self.sg(n.ty, A[1], n.args[1]) if len(A) > 1 else None
        c = None
        if op == 'add': c = (a[0] + b[0], a[1] + b[1])
        elif op == 'sub': c = (a[0] - b[1], a[1] - b[0])
        elif op == 'srem' and b[0] == b[1] and 0 < b[0] < 2**30:
            m = b[0]
            if -m < a[0] and a[1] < m: c = (a[0], a[1])
            else: c = (max(a[0], 1 - m) if a[0] < 0 else 0, min(a[1], m - 1) if a[1] > 0 else 0)
        elif op == 'mul':
            q = [x * y for x in a[:2] for y in b[:2]]; c = (min(q), max(q))
        elif op == 'and' and b[0] == b[1] and b[0] >= 0: c = (0, b[0])
        elif op in ('lshr', 'ashr') and b[0] == b[1] and a[0] >= 0: c = (a[0] >> b[0], a[1] >> b[0])
        elif op in ('sdiv', 'udiv') and b[0] == b[1] and b[0] > 0 and a[0] >= 0: c = (a[0] // b[0], a[1] // b[0])
        elif op in ('srem', 'urem') and b[0] == b[1] and b[0] > 0 and a[0] >= 0: c = (0, min(a[1], b[0] - 1))
        if c and c[0] >= full[0] and c[1] <= full[1]: return (c[0], c[1], False)
        return full

    def ratio(self, n, a):
        """upper bound of c*x / (... + d*x + ...) when all addends are non-negative (rounded sums are monotone)"""
        def strip(x):
            c = 1.0
            while is_node(x):
                if x.op == 'cast' and x.attr[0] == 'fpext': x = x.args[0]; continue
                if x.op != 'fmul': break
                p, q = x.args
                if is_node(p) and not is_node(q) and 1 <= q < 1e6: c *= q; x = p
                elif is_node(q) and not is_node(p) and 1 <= p < 1e6: c *= p; x = q
                else: break
            return c, x
        if not (0 <= a[0] <= a[1] < 1e30) or a[2] or not is_node(n.args[0]) or not is_node(n.args[1]): return None
        c, x = strip(n.args[0])
        if not is_node(x): return None
        st = [n.args[1]]; best = None; k = 0
        while st:
            y = st.pop(); k += 1
            if k > 12: return None
            if is_node(y) and y.op == 'fadd': st += list(y.args); continue
            v = self.memo.get(y.id) if is_node(y) else self.get(y)
            if v is None: v = self.get(y)
            if v[2] or not (0 <= v[0] <= v[1] < 1e30): return None
            d, z = strip(y)
            if z is x: best = d if best is None else max(best, d)
        if best is None: return None
        if n.args[0] is x and best == 1: return 1.0
        return c / best * (1 + 1e-6)

    def affine(self, n):
        """range of a small sum of products that is affine in each of its leaves: exact corners plus rounding"""
        cnt = {}; size = [0]; mag = [0.0]
        def poly(x, d):
            # {frozenset(leaf ids): coefficient}
            size[0] += 1
            if size[0] > 16: raise OverflowError
            if not is_node(x): return {frozenset(): float(x)}
            if d < 4 and x.op in ('fadd', 'fsub', 'fmul'):
                p, q = poly(x.args[0], d + 1), poly(x.args[1], d + 1)
                r = {}
                if x.op == 'fmul':
                    for k1, v1 in p.items():
                        for k2, v2 in q.items():
                            if k1 & k2: raise OverflowError
                            k = k1 | k2; r[k] = r.get(k, 0.0) + v1 * v2
                else:
                    for k, v in p.items(): r[k] = r.get(k, 0.0) + v
                    for k, v in q.items(): r[k] = r.get(k, 0.0) + (v if x.op == 'fadd' else -v)
            else: r = {frozenset([x.id]): 1.0}; cnt.setdefault(x.id, [x, 0])[1] += 1
            m = 0.0
            for k, v in r.items():
                t = abs(v)
                for i in k:
                    a = self.get(cnt[i][0]) if i in cnt else None
                    if a is None or a[2] or not (math.isfinite(a[0]) and math.isfinite(a[1])): raise OverflowError
                    t *= max(abs(a[0]), abs(a[1]))
                m += t
            mag[0] += m
            return r
        try: r = poly(n, 0)
        except (OverflowError, KeyError): return None
        if not any(c > 1 for _, c in cnt.values()) or len(cnt) > 5: return None
        ids = list(cnt); lo, hi = INF, -INF
        for m in range(1 << len(ids)):
            v = 0.0; pt = {i: self.get(cnt[i][0])[(m >> j) & 1] for j, i in enumerate(ids)}
            for k, c in r.items():
                t = c
                for i in k: t *= pt[i]
                v += t
            lo = min(lo, v); hi = max(hi, v)
        e = mag[0] * 2.0 ** -20 + 1e-40
        return (lo - e, hi + e)

    def sg(self, ty, a, arg):
        if not is_node(arg) and isinstance(arg, int) and ty != 'i1':
            s = signed(ty, arg); return (s, s, False)
        return a

    def call(self, n, A, nan):
        f = n.attr; ty = n.ty
        a = A[0]
        if f == 'fmod':
            b = A[1]
            if math.isinf(a[0]) or math.isinf(a[1]) or b[0] <= 0 <= b[1]: nan = True
            m = max(abs(b[0]), abs(b[1]))
            lo = 0.0 if a[0] >= 0 else max(-m, a[0])
            hi = 0.0 if a[1] <= 0 else min(m, a[1])
            if b[0] == b[1] and a[0] >= 0 and a[1] < b[0]: return (a[0], a[1], nan)
            return (lo, hi, nan)
        if f in ('sin', 'cos'):
            if math.isinf(a[0]) or math.isinf(a[1]): nan = True
            return (-1.0, 1.0, nan)
        if f == 'atan2': return atan2_range(n.args[0], A[0], A[1]) + (nan,)
        if f == 'pow':
            b = A[1]
            if not nan and a[0] >= 0 and b[0] == b[1] and b[0] != 0:
                try:
                    l = float(LIBM['powf' if ty == 'f32' else 'pow'][3](a[0], b[0])); h = float(LIBM['powf' if ty == 'f32' else 'pow'][3](a[1], b[0]))
                except Exception:
                    return (0.0, INF, True)
                if b[0] < 0: l, h = h, l
                l2, h2 = widen(ty, l, h)
                ex = lambda q, q2: q if q in (0.0, 1.0, INF) else q2
                return (max(0.0, ex(l, l2)), ex(h, h2), False)
            if not nan and not is_node(n.args[1]) and float(n.args[1]).is_integer() and n.args[1] > 0:
                e = int(n.args[1])
                q = [float(LIBM['powf' if ty == 'f32' else 'pow'][3](z, b[0])) for z in a[:2]]
                if e % 2 == 0:
                    lo = 0.0 if a[0] <= 0 <= a[1] else min(q)
                    l2, h2 = widen(ty, lo, max(q)); return (max(0.0, l2), h2, False)
                l2, h2 = widen(ty, min(q), max(q)); return (l2, h2, False)
            if not nan and a[0] > 0 : return (0.0, INF, False)
            return TOP
        if f in ('exp', 'cbrt', 'log', 'log10', 'atan', 'exp2', 'log2', 'tanh', 'sinh'):
            if f.startswith('log') and a[0] < 0: return TOP
            g = LIBM[f + ('f' if ty == 'f32' else '')][3]
            l2, h2 = widen(ty, float(g(a[0])), float(g(a[1])))
            if f.startswith('exp'): l2 = max(0.0, l2)
            return (l2, h2, nan)
        return TOP

def _maybe_negzero(x):
    # a denominator that is a sum/difference/abs/max of non-negative things is never -0 with round-to-nearest
    return is_node(x) and x.op not in ('fadd', 'fsub', 'fabs', 'fsqrt', 'var', 'fmax', 'fmin')

def atan2_range(ynode, y, x):
    PI = 3.1415929794311523
    if all(math.isfinite(v) for v in y[:2] + x[:2]):
        if y[0] > 0 or y[1] < 0 or x[0] > 0:
            c = [math.atan2(p, q) for p in y[:2] for q in x[:2]]
            lo, hi = min(c), max(c)
            return (max(-PI, lo - abs(lo) * 1e-6), min(PI, hi + abs(hi) * 1e-6))
        if isinstance(ynode, float) and ynode == 0 and x[1] < 0:
            return (3.1415925, PI) if math.copysign(1, ynode) > 0 else (-PI, -3.1415925)
    return (-PI, PI)
