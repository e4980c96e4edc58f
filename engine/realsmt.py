"""Real-arithmetic relaxation of a path with rigorous forward rounding-error bounds.

For every float node n of the path we keep a real expression e(n) over the inputs and a bound  |v(n)-e(n)| <= R|e(n)|+A
on the machine value v(n).  Path conditions and the negated assertion are relaxed by those bounds, so 'unsat' is a proof
for every machine execution of the path; 'sat' is only a candidate that must replay natively."""
import math, time, subprocess
from fractions import Fraction
import z3
from dag import *
from interval import Iv, INF

U = {'f32': 2.0**-24, 'f64': 2.0**-53}
ETA = {'f32': 2.0**-150, 'f64': 2.0**-1075 if 2.0**-1075 else 5e-324}
ETA['f64'] = 5e-324
SL = 1 + 2.0**-40     # slack for our own bookkeeping in doubles
LIBERR = 4            # ulps granted to glibc's float functions (documented: < 1-2 ulp)

class NotReal(Exception): pass
class Infeasible(Exception):
    """the path (or the assertion's negation) admits no machine execution"""

def RV(x):
    if isinstance(x, int): return z3.RealVal(x)
    if not math.isfinite(x): raise NotReal('infinite bound')
    f = Fraction(x)
    return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))

class Info:
    __slots__ = ('e', 'R', 'A', 'c', 's')
    def __init__(self, e, R=0.0, A=0.0, c=None, s=None):
        self.e = e; self.R = R; self.A = A; self.c = c     # c: exact constant value (Fraction) if constant
        self.s = (A == 0 and R < 1) if s is None else s    # the machine value has the sign (-,0,+) of e

class Real:
    def __init__(self, pc, iv, timeout_ms=5000, stats=None, infer=True, cache=None):
        self.cache = cache
        self.pc = pc; self.iv = iv.copy(); self.memo = {}; self.cons = []; self.k = 0
        self.timeout = timeout_ms; self.stats = stats if stats is not None else {}
        self.sqrts = []; self.linm = {}; self.fvm = {}; self.qm = {}; self.soft = set(); self.sb = {}; self.bm = {}; self.calls = []; self.infer = infer; self.inputs = {}
        self.hasint = False
        self.done_pc = 0
        self.notes = set()
        self.pcz = []
        self.bad_pc = 0

    def fresh(self, p='t'):
        self.k += 1
        return z3.Real('%s!%d' % (p, self.k))
    def freshb(self):
        self.k += 1
        return z3.Bool('d!%d' % self.k)
    def freshi(self):
        self.k += 1
        self.hasint = True
        return z3.Int('i!%d' % self.k)

    def bounds(self, n):
        """enclosure of the real expression e(n)"""
        i = self.get(n)
        lo, hi, nan = self.iv.get(n)
        if nan: raise NotReal('possible NaN at ' + show(n, 2))
        if not (math.isfinite(lo) and math.isfinite(hi)): return (-INF, INF)
        # v in [lo,hi], |v-e| <= R|e|+A
        if i.R >= 1: return (-INF, INF)
        A = i.A
        f = lambda v: 0.0 if v == 0 else v * (1 + 2.0**-40)         # outward for a bound pushed away from 0
        g = lambda v: v * (1 - 2.0**-40)
        l = lo - A; l = f(l / (1 - i.R)) if l < 0 else g(l / (1 + i.R))
        h = hi + A; h = f(h / (1 - i.R)) if h > 0 else g(h / (1 + i.R))
        if i.s:
            if lo >= 0: l = max(l, 0.0)
            if hi <= 0: h = min(h, 0.0)
        b = self.sbounds(n)
        return (max(l, b[0]), min(h, b[1])) if max(l, b[0]) <= min(h, b[1]) else (l, h)

    def sbounds(self, n):
        """enclosure of e(n) from those of the operands' expressions"""
        if not is_node(n): return (n, n)
        b = self.sb.get(n.id)
        if b is not None: return b
        self.sb[n.id] = (-INF, INF)
        op, a = n.op, n.args
        dn = lambda v: v - abs(v) * 2.0**-50; up = lambda v: v + abs(v) * 2.0**-50
        r = (-INF, INF)
        try:
            if op in ('fadd', 'fsub', 'fmul', 'fabs', 'fsqrt', 'fmin', 'fmax', 'fneg', 'fdiv') or (op == 'cast' and n.attr[0] in ('fpext', 'fptrunc')):
                B = [self.bounds(x) if is_node(x) else (x, x) for x in a]
                if all(math.isfinite(v) for p in B for v in p):
                    p = B[0]; q = B[-1]
                    if op == 'fadd': r = (dn(p[0] + q[0]), up(p[1] + q[1]))
                    elif op == 'fsub': r = (dn(p[0] - q[1]), up(p[1] - q[0])) if a[0] is not a[1] else (0.0, 0.0)
                    elif op == 'fmul':
                        if a[0] is a[1]: m = max(abs(p[0]), abs(p[1])); r = (0.0, up(m * m))
                        else: c = [x * y for x in p for y in q]; r = (dn(min(c)), up(max(c)))
                    elif op == 'fdiv' and (q[0] > 0 or q[1] < 0): c = [x / y for x in p for y in q]; r = (dn(min(c)), up(max(c)))
                    elif op == 'fabs': r = (max(0.0, p[0], -p[1]), max(abs(p[0]), abs(p[1])))
                    elif op == 'fneg': r = (-p[1], -p[0])
                    elif op == 'fmin': r = (min(p[0], q[0]), min(p[1], q[1]))
                    elif op == 'fmax': r = (max(p[0], q[0]), max(p[1], q[1]))
                    elif op == 'fsqrt': r = (dn(math.sqrt(max(p[0], 0))), up(math.sqrt(max(p[1], 0))))
                    elif op == 'cast': r = p
        except NotReal: pass
        self.sb[n.id] = r
        return r

    def mag(self, n):
        lo, hi = self.bounds(n)
        return max(abs(lo), abs(hi))

    def absE(self, n):
        i = self.get(n)
        if i.R == 0: return i.A
        m = self.mag(n)
        return (i.R * m + i.A) * SL

    def errterm(self, n):
        """z3 term bounding |v-e| (linear when the sign of e is known)"""
        i = self.get(n)
        if i.R == 0 and i.A == 0: return None
        if i.R == 0: return RV(i.A * SL)
        lo, hi = self.bounds(n)
        if i.A == 0 or i.R * max(abs(lo), abs(hi)) > i.A:
            if lo >= 0: return RV(i.R) * i.e + RV(i.A)
            if hi <= 0: return RV(i.R) * (-i.e) + RV(i.A)
        return RV(self.absE(n))

    def errsym(self, n):
        """z3 term bounding |v-e|, proportional to |e|"""
        i = self.get(n)
        if i.R == 0: return RV(i.A * SL) if i.A else None
        lo, hi = self.bounds(n)
        m = i.e if lo >= 0 else -i.e if hi <= 0 else z3.If(i.e >= 0, i.e, -i.e)
        return RV(i.R * SL) * m + RV(i.A * SL)

    def get(self, n):
        if not is_node(n):
            if isinstance(n, float):
                if not math.isfinite(n): raise NotReal('non-finite constant')
            return Info(RV(n), 0.0, 0.0, Fraction(n))
        i = self.memo.get(n.id)
        if i is not None: return i
        for m in topo([n]):
            if m.id in self.memo or m.ty == 'i1': continue
            r = self.iv.get(m)
            if r[0] > r[1] and not r[2]: raise Infeasible()     # no machine value possible on this path
            self.memo[m.id] = self.comp(m)
        return self.memo[n.id]

    def anchor(self, n):
        """represent the machine value of n itself: an unknown real within the error bound of the exact one"""
        i = self.get(n)
        if i.A == 0 or not is_node(n): return i
        E = RV(self.absE(n) * 1.0001)
        m = self.fresh('m')
        self.soft |= {len(self.cons), len(self.cons) + 1}
        self.cons += [m - i.e <= E, i.e - m <= E]
        lo, hi, nan = self.iv.get(n)
        if math.isfinite(lo) and math.isfinite(hi) and not nan: self.cons += [m >= RV(lo), m <= RV(hi)]
        i = self.memo[n.id] = Info(m, 0.0, 0.0)
        return i

    def exact(self, n):
        i = self.get(n)
        return i.R == 0 and i.A == 0

    def opaque(self, n, why):
        lo, hi, nan = self.iv.get(n)
        if nan: raise NotReal('possible NaN at ' + show(n, 2))
        t = self.fresh('o')
        if math.isfinite(lo): self.cons.append(t >= RV(lo))
        if math.isfinite(hi): self.cons.append(t <= RV(hi))
        self.notes.add('opaque ' + why)
        return Info(t)

    def comp(self, n):
        op, ty = n.op, n.ty
        a = n.args
        if ty in ('i1',): return None
        if op == 'var':
            t = z3.Real(n.attr[0]) if ty[0] == 'f' else z3.ToReal(z3.Int(n.attr[0]))
            if ty[0] != 'f': self.hasint = True
            lo, hi, nan = self.iv.get(n)
            if nan or not (math.isfinite(lo) and math.isfinite(hi)): raise NotReal('unbounded input ' + n.attr[0])
            self.inputs[n.attr[0]] = (n, t)
            self.cons.append(z3.And(t >= RV(lo), t <= RV(hi)))
            return Info(t)
        if ty[0] != 'f': return self.comp_int(n)
        u = U[ty]; eta = ETA[ty]
        if op in ('fadd', 'fsub'):
            x, y = self.get(a[0]), self.get(a[1])
            if not is_node(a[1]) and a[1] == 0: return x            # adding zero is exact
            if not is_node(a[0]) and a[0] == 0: return y if op == 'fadd' else Info(-y.e, y.R, y.A, s=y.s)
            e = x.e + y.e if op == 'fadd' else x.e - y.e
            if a[0] is a[1]:
                if op == 'fsub': return Info(RV(0))
                return Info(2 * x.e, x.R, 2 * x.A)
            bx, by = self.bounds(a[0]), self.bounds(a[1])
            if op == 'fsub': by = (-by[1], -by[0])
            if x.R == x.A == y.R == y.A == 0:
                # integers of small magnitude add exactly
                if self.isint(a[0]) and self.isint(a[1]) and max(map(abs, bx + by)) < 2.0**(22 if ty == 'f32' else 51): return Info(e)
                return Info(e, u, 0.0)
            if (bx[0] >= 0 and by[0] >= 0) or (bx[1] <= 0 and by[1] <= 0):
                return Info(e, (max(x.R, y.R) * (1 + u) + u) * SL, (x.A + y.A) * (1 + u) * SL)
            A = (self.absE(a[0]) + self.absE(a[1])) * (1 + u) * SL
            return Info(e, u, A)
        if op == 'fmul':
            x, y = self.get(a[0]), self.get(a[1])
            e = x.e * y.e
            mx, my = self.mag(a[0]), self.mag(a[1])
            for p, q, c in ((x, y, a[1]), (y, x, a[0])):
                if not is_node(c) and c != 0 and math.frexp(abs(c))[0] == 0.5:
                    return Info(e, p.R, p.A * abs(c) + (eta if abs(c) < 1 else 0), s=p.s and abs(c) >= 1)
            R = ((1 + x.R) * (1 + y.R) * (1 + u) - 1) * SL
            A = 0.0
            if x.A: A += x.A * (my * (1 + y.R) + y.A)
            if y.A: A += y.A * mx * (1 + x.R)
            sg = x.s and y.s and any((not is_node(c)) and abs(c) >= 1 or (is_node(c) and (lambda b: b[0] >= 1 or b[1] <= -1)(self.iv.get(c)[:2])) for c in a)
            return Info(e, R, A * (1 + u) * SL + eta, s=sg)
        if op == 'fdiv': return self.div(n)
        if op == 'fneg':
            x = self.get(a[0]); return Info(-x.e, x.R, x.A, s=x.s)
        if op == 'fabs':
            x = self.get(a[0])
            b = self.bounds(a[0])
            if b[0] >= 0: return x
            if b[1] <= 0: return Info(-x.e, x.R, x.A, s=x.s)
            return Info(z3.If(x.e >= 0, x.e, -x.e), x.R, x.A, s=x.s)
        if op in ('fmin', 'fmax'):
            for z in a:
                if self.iv.get(z)[2]: raise NotReal('possible NaN into min/max')
            A0, A1 = self.iv.get(a[0]), self.iv.get(a[1])
            # computed-value domination
            for p, q, P, Q in ((a[0], a[1], A0, A1), (a[1], a[0], A1, A0)):
                if P[1] <= Q[0]:
                    # the ordering may come from the path condition on this very node: keep it as a fact
                    try: self.cons.append(self.get(p).e - self.get(q).e <= RV(self.absE(p) + self.absE(q)))
                    except NotReal: pass
                    return self.get(p if op == 'fmin' else q)
            x, y = self.get(a[0]), self.get(a[1])
            c = x.e <= y.e if op == 'fmin' else x.e >= y.e
            return Info(z3.If(c, x.e, y.e), max(x.R, y.R), max(x.A, y.A), s=x.s and y.s)
        if op == 'fsqrt':
            x = self.get(a[0])
            lo, hi = self.bounds(a[0])
            if x.A > 1e-15 and lo == 0 and self.iv.get(a[0])[0] >= 0: x = self.anchor(a[0])
            s = self.fresh('s')
            self.cons += [s >= 0]
            if lo < 0:
                xe = z3.If(x.e >= 0, x.e, RV(0))
            else: xe = x.e
            self.cons.append(s * s == xe)
            self.sqrts.append((s, xe))
            self.cons.append(s <= RV(math.sqrt(max(hi, 0)) * SL + 1e-300))
            if x.A == 0: return Info(s, (x.R / 2 * (1 + x.R) + u) * SL, 0.0)
            A = math.sqrt(x.A)
            if lo > 0: A = min(A, x.A / (2 * math.sqrt(lo)))
            return Info(s, (x.R + u) * SL, A * SL * 2 if lo <= 0 else A * SL * (1 + 1e-6) + 0.0)
        if op == 'select':
            x, y = self.get(a[1]), self.get(a[2])
            b = self.boolean(a[0])
            return Info(z3.If(b, x.e, y.e), max(x.R, y.R), max(x.A, y.A), s=x.s and y.s)
        if op in ('fround', 'ffloor', 'fceil', 'ftrunc', 'froundeven'):
            if self.isint(a[0]): return self.get(a[0])
            x = self.get(a[0]); E = self.absE(a[0])
            lo, hi, _ = self.iv.get(n)
            if lo == hi: return Info(RV(lo))
            k = self.freshi(); kr = z3.ToReal(k)
            self.cons += [k >= int(lo), k <= int(hi)]
            if op in ('fround', 'froundeven'): self.cons += [kr - x.e <= RV(0.5 + E), x.e - kr <= RV(0.5 + E)]
            elif op == 'ffloor': self.cons += [kr <= x.e + RV(E), x.e < kr + RV(1 + E)]
            elif op == 'fceil': self.cons += [kr >= x.e - RV(E), x.e > kr - RV(1 + E)]
            else: self.cons += [kr - x.e < RV(1 + E), x.e - kr < RV(1 + E), z3.Or(z3.And(x.e >= RV(-E), kr <= x.e + RV(E), k >= 0), z3.And(x.e <= RV(E), kr >= x.e - RV(E), k <= 0))]
            return Info(kr)
        if op == 'cast':
            k = n.attr[0]
            if k == 'fpext': return self.get(a[0])
            if k == 'fptrunc':
                x = self.get(a[0])
                if self.isint(a[0]) and self.mag(a[0]) < 2**24 and x.R == x.A == 0: return x
                return Info(x.e, ((1 + x.R) * (1 + u) - 1) * SL, x.A * (1 + u) * SL + eta)
            if k in ('sitofp', 'uitofp'):
                x = self.get(a[0])
                m = self.mag(a[0])
                return Info(x.e, 0.0 if m <= 2.0**(24 if ty == 'f32' else 53) else u, 0.0)
            return self.opaque(n, k)
        if op == 'call':
            import realcalls
            return realcalls.call(self, n)
        return self.opaque(n, op)

    def isint(self, n):
        """value is known to be an integer"""
        if not is_node(n): return float(n).is_integer()
        if n.ty[0] != 'f': return True
        if n.op == 'cast': return n.attr[0] in ('sitofp', 'uitofp') or (n.attr[0] in ('fpext', 'fptrunc') and self.isint(n.args[0]))
        if n.op in ('fround', 'ffloor', 'fceil', 'ftrunc', 'froundeven'): return True
        if n.op in ('fmin', 'fmax', 'fneg', 'fabs'): return all(self.isint(a) for a in n.args)
        if n.op == 'select': return self.isint(n.args[1]) and self.isint(n.args[2])
        return False

    def comp_int(self, n):
        op, a = n.op, n.args
        lo, hi, _ = self.iv.get(n)
        w = width(n.ty)
        G = lambda x: self.get(x) if is_node(x) else Info(RV(signed(n.ty, x)))
        if op == 'select':
            b = self.boolean(a[0]); return Info(z3.If(b, G(a[1]).e, G(a[2]).e))
        if op == 'cast':
            k = n.attr[0]
            if k == 'zext' and is_node(a[0]) and self.iv.get(a[0])[0] >= 0: return self.get(a[0])
            if k == 'sext': return self.get(a[0])
            if k == 'fptosi':
                x = self.get(a[0])
                lo0, hi0, nan = self.iv.get(a[0])
                if nan or not math.isfinite(lo0) or not math.isfinite(hi0) or abs(lo0) >= 2.0**(w - 1) or abs(hi0) >= 2.0**(w - 1): raise NotReal('float to int out of range')
                if self.isint(a[0]): return x
                E = self.absE(a[0])
                i = self.freshi(); kr = z3.ToReal(i)
                self.cons += [i >= lo, i <= hi]
                if lo0 >= 0: self.cons += [kr <= x.e + RV(E), x.e < kr + RV(1 + E)]
                elif hi0 <= 0: self.cons += [kr >= x.e - RV(E), x.e > kr - RV(1 + E)]
                else: self.cons += [kr - x.e < RV(1 + E), x.e - kr < RV(1 + E), z3.Or(z3.And(x.e >= RV(-E), kr <= x.e + RV(E), i >= 0), z3.And(x.e <= RV(E), kr >= x.e - RV(E), i <= 0))]
                return Info(kr)
            if k == 'trunc':
                ai = self.iv.get(a[0])
                if -(1 << (w - 1)) <= ai[0] and ai[1] < (1 << (w - 1)): return self.get(a[0])
        if op in ('add', 'sub', 'mul'):
            A0 = self.iv.sg(n.ty, self.iv.get(a[0]), a[0]); B0 = self.iv.sg(n.ty, self.iv.get(a[1]), a[1])
            c = {'add': (A0[0] + B0[0], A0[1] + B0[1]), 'sub': (A0[0] - B0[1], A0[1] - B0[0]), 'mul': (min(p * q for p in A0[:2] for q in B0[:2]), max(p * q for p in A0[:2] for q in B0[:2]))}[op]
            if c[0] >= -(1 << (w - 1)) and c[1] < (1 << (w - 1)):
                x, y = G(a[0]).e, G(a[1]).e
                return Info(x + y if op == 'add' else x - y if op == 'sub' else x * y)
        if op in ('shl',) and not is_node(a[1]):
            A0 = self.iv.get(a[0])
            if max(abs(A0[0]), abs(A0[1])) << a[1] < (1 << (w - 1)): return Info(G(a[0]).e * (1 << a[1]))
        if op in ('sdiv', 'udiv', 'lshr', 'ashr', 'srem', 'urem') and not is_node(a[1]) and a[1] > 0 and self.iv.get(a[0])[0] >= 0:
            d = a[1] if op in ('sdiv', 'udiv', 'srem', 'urem') else 1 << a[1]
            q = self.freshi(); x = G(a[0]).e
            qr = z3.ToReal(q)
            self.cons += [qr * d <= x, x < qr * d + d, q >= 0]
            if op.endswith('rem'): return Info(x - qr * d)
            return Info(qr)
        return self.opaque(n, op)

    # ---------------------------------------------------------------- division with inferred relational bounds
    def div(self, n):
        a = n.args; ty = n.ty; u = U[ty]; eta = ETA[ty]
        x, y = self.get(a[0]), self.get(a[1])
        lo, hi, nan = self.iv.get(a[1])
        if nan: raise NotReal('possible NaN denominator')
        if not is_node(a[1]):
            c = a[1]
            if c == 0: raise NotReal('division by zero constant')
            e = x.e * RV(1 / Fraction(c)) if Fraction(c).numerator != 0 else None
            p2 = math.frexp(abs(c))[0] == 0.5
            if p2: return Info(e, x.R, x.A / abs(c) + (eta if abs(c) > 1 else 0), s=x.s and abs(c) <= 1)
            return Info(e, ((1 + x.R) * (1 + u) - 1) * SL, x.A / abs(c) * (1 + u) * SL + eta, s=x.s and abs(c) <= 1)
        blo, bhi = self.bounds(a[1])
        if blo > 0 or bhi < 0:
            m = min(abs(blo), abs(bhi)); mv = min(abs(lo), abs(hi))
        else:
            m = mv = 0.0
            # strict sign from the path condition?
            if not self.infer: raise NotReal('denominator may vanish: ' + show(a[1], 2))
            if y.A != 0:
                # find a lower bound of |denominator| the path condition guarantees (remembered per path)
                key = (len(self.pc), a[1].id)
                hit = self.cache.get(key) if self.cache is not None else None
                if hit is None:
                    hit = (0, 0)
                    for k in (0.25, 0.01, 4e-4, 1e-5, 1e-6, 1e-7, 1e-8):
                        if k < 2 * y.A: break
                        if self.prove(y.e >= RV(k)): sg = 1
                        elif self.prove(y.e <= RV(-k)): sg = -1
                        else: continue
                        for _ in range(6):
                            if k >= 0.25 or not self.prove(y.e >= RV(k * 2) if sg > 0 else y.e <= RV(-k * 2)): break
                            k *= 2
                        hit = (sg, k); break
                    if self.cache is not None: self.cache[key] = hit
                sg, k = hit
                if sg:
                    m = k; mv = k * (1 - y.R) - y.A
                    if sg > 0: blo = k
                    else: bhi = -k
                    # the computed value has the same sign and magnitude
                    if not self.iv.refine(a[1], mv * 0.999999 if sg > 0 else -INF, INF if sg > 0 else -mv * 0.999999, False): raise Infeasible()
                if not m: raise NotReal('denominator not bounded away from 0 and absolutely perturbed: ' + show(a[1], 2))
            elif not (self.prove(y.e > 0) or self.prove(y.e < 0)):
                raise NotReal('denominator may be 0: ' + show(a[1], 3))
        # one variable per real quotient: the same ratio in single and double precision is one quantity
        kx, ky = z3.simplify(x.e, som=True), z3.simplify(y.e, som=True)
        hit = self.qm.get((kx.get_id(), ky.get_id()))
        if hit is None: hit = self.qm[(kx.get_id(), ky.get_id())] = (self.fresh('q'), kx, ky)
        q = hit[0]
        if m > 0:
            kk = 1 / (1 - y.R - y.A / m)
            R = ((x.R + y.R) * kk + y.A / mv) * SL
            R = ((1 + R) * (1 + u) - 1) * SL
            A = x.A / mv * (1 + u) * SL + eta
        else:
            if x.A != 0: raise NotReal('numerator absolutely perturbed over vanishing denominator')
            R = ((1 + x.R) / (1 - y.R) * (1 + u) - 1) * SL
            A = eta
        self.cons.append(q * y.e == x.e)
        i = Info(q, R, A, s=x.s and y.s and max(abs(lo), abs(hi)) <= 1)
        # bound for the quotient
        cur = self.iv.get(n)
        wide = cur[2] or not (math.isfinite(cur[0]) and math.isfinite(cur[1])) or (m == 0 or max(abs(cur[0]), abs(cur[1])) > 64)
        if wide and self.infer:
            s = 1 if (blo >= 0 or (m == 0 and self.prove(y.e > 0))) else -1
            den = y.e if s > 0 else -y.e
            ub = lb = None
            for k in (0, 1, 2, 3, 6, 10, 64, 1024):
                if self.prove(x.e <= k * den): ub = float(k); break
            for k in (0, 1, 2, 3, 6, 10, 64, 1024):
                if self.prove(x.e >= -k * den): lb = -float(k); break
            if s < 0 and False: pass
            if ub is None or lb is None:
                if cur[2] or not (math.isfinite(cur[0]) and math.isfinite(cur[1])):
                    raise NotReal('unbounded quotient ' + show(n, 3))
            else:
                l, h = (lb, ub) if s > 0 else (-ub, -lb)
                self.cons += [q >= RV(l), q <= RV(h)]
                E = lambda z: (R * abs(z) + A) * SL * 1.0001
                up = lambda z: z + E(z) if z else eta
                if not self.iv.refine(n, -up(-l) if l else 0.0, up(h) if h else 0.0, False): raise Infeasible()
        elif math.isfinite(cur[0]) and math.isfinite(cur[1]):
            E = R * max(abs(cur[0]), abs(cur[1])) * 1.01 + A
            self.cons += [q >= RV(cur[0] - E), q <= RV(cur[1] + E)]
        return i

    def prove(self, f):
        """path facts so far |= f ?"""
        if not self.hasint:
            s = z3.SolverFor('QF_LRA'); s.set('timeout', 1000)
            for c in self.pcz + self.cons:
                if self.linear(c): s.add(c)
            nf = z3.Not(f)
            if self.linear(nf):
                s.add(nf)
                if self.run(s) == z3.unsat: return True
        s = self.solver(min(self.timeout, 1500))
        for c in self.pcz: s.add(c)
        for c in self.cons: s.add(c)
        s.add(z3.Not(f))
        return self.run(s) == z3.unsat

    def linear(self, c):
        """no product of two non-constants anywhere in c"""
        i = c.get_id()
        r = self.linm.get(i)
        if r is None or not r[1].eq(c):
            k = c.decl().kind(); ch = c.children()
            r = all(self.linear(x) for x in ch)
            if r and k == z3.Z3_OP_MUL: r = sum(not num(x) for x in ch) <= 1
            elif r and k == z3.Z3_OP_DIV: r = num(ch[1])
            elif k == z3.Z3_OP_POWER: r = False
            r = (r, c); self.linm[i] = r
        return r[0]

    def solver(self, to):
        if self.hasint: s = z3.Solver()
        else: s = z3.SolverFor('QF_NRA')
        s.set('timeout', int(to))
        return s

    def run(self, s):
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.stats['queries'] = self.stats.get('queries', 0) + 1
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t
        return r

    # ---------------------------------------------------------------- conditions
    def sync_pc(self):
        """encode the whole path condition once; conditions that need facts from later ones are retried"""
        if self.done_pc: return
        self.done_pc = 1
        todo = list(self.pc)
        for rnd_ in range(3):
            again = []
            for n, val in todo:
                try: c = self.cond(n, val, True)
                except NotReal: again.append((n, val)); continue
                if c is not None: self.pcz.append(c)
            if not again or len(again) == len(todo): todo = again; break
            todo = again
        self.bad_pc = len(todo)          # dropped conditions: a sound weakening

    def cond(self, n, val, top=False):
        """relaxed z3 formula implied by (n == val) on machine values"""
        if not is_node(n): return z3.BoolVal(bool(n) == bool(val))
        if n.op == 'not': return self.cond(n.args[0], 1 - val, top)
        if n.op == 'band':
            if val: return z3.And(self.cond(n.args[0], 1, top), self.cond(n.args[1], 1, top))
            return z3.Or(self.cond(n.args[0], 0), self.cond(n.args[1], 0))
        iv = self.iv.get(n)
        # the intervals were refined by the path condition itself, so they may not be used to drop it
        if iv[0] == iv[1] and not (top and iv[0] == val): return z3.BoolVal(iv[0] == val)
        if n.op == 'fcmp':
            a, b = n.args; p = n.attr
            if p == 'ord':
                if self.iv.get(a)[2] or self.iv.get(b)[2]: raise NotReal('NaN test')
                return z3.BoolVal(bool(val))
            x, y = self.get(a), self.get(b)
            if self.iv.get(a)[2] or self.iv.get(b)[2]:
                if not val: raise NotReal('NaN in comparison')
            # pure sign tests are exact under relative error only
            z = lambda t, i: (not is_node(t)) and t == 0
            if z(b, y) and x.s: ea, eb, err = x.e, y.e, None
            elif z(a, x) and y.s: ea, eb, err = x.e, y.e, None
            else:
                ea, eb = x.e, y.e
                t1, t2 = self.errterm(a), self.errterm(b)
                err = t1 if t2 is None else t2 if t1 is None else t1 + t2
            D = lambda: (eb if err is None else eb + err)
            N = lambda: (eb if err is None else eb - err)
            if p == 'olt': return ea < D() if val else ea >= N()
            if p == 'ole': return ea <= D() if val else ea > N()
            if p == 'oeq':
                if err is None: return ea == eb if val else ea != eb
                return z3.And(ea <= D(), ea >= N()) if val else z3.BoolVal(True)
            raise NotReal('fcmp ' + p)
        if n.op == 'icmp':
            p, ty = n.attr
            a, b = n.args
            if ty == 'i1':
                x, y = self.boolean(a), self.boolean(b)
                return x == y if val else x != y
            X = self.get(a) if is_node(a) else Info(RV(signed(ty, a)))
            Y = self.get(b) if is_node(b) else Info(RV(signed(ty, b)))
            if p == 'eq': return X.e == Y.e if val else X.e != Y.e
            if p[0] == 'u':
                if self.iv.sg(ty, self.iv.get(a), a)[0] < 0 or self.iv.sg(ty, self.iv.get(b), b)[0] < 0: raise NotReal('unsigned compare')
            if p[1:] == 'lt': return X.e < Y.e if val else X.e >= Y.e
            raise NotReal('icmp ' + p)
        return self.boolean(n) if val else z3.Not(self.boolean(n))

    def boolean(self, n):
        """z3 boolean standing for the machine truth value of n"""
        if not is_node(n): return z3.BoolVal(bool(n))
        b = self.bm.get(n.id)
        if b is not None: return b
        if n.op == 'not': b = z3.Not(self.boolean(n.args[0]))
        elif n.op == 'band': b = z3.And(self.boolean(n.args[0]), self.boolean(n.args[1]))
        elif n.op == 'var': b = z3.Bool(n.attr[0])
        elif n.op == 'select': b = z3.If(self.boolean(n.args[0]), self.boolean(n.args[1]), self.boolean(n.args[2]))
        else:
            iv = self.iv.get(n)
            if iv[0] == iv[1]: b = z3.BoolVal(bool(iv[0]))
            else:
                ex = False
                if n.op == 'icmp': ex = True
                elif n.op == 'fcmp' and n.attr != 'ord':
                    ex = all((not self.iv.get(x)[2]) and self.exact(x) for x in n.args)
                if ex: b = self.cond(n, 1)
                else:
                    b = self.freshb()
                    try:
                        self.cons.append(z3.Implies(b, self.cond(n, 1)))
                        self.cons.append(z3.Implies(z3.Not(b), self.cond(n, 0)))
                    except NotReal: pass
        self.bm[n.id] = b
        return b

    def cvc5(self, neg, ms):
        """second opinion on a query z3 could not settle (only 'unsat' is used)"""
        s = self.solver(ms)
        for c in self.cons: s.add(c)
        for c in self.pcz: s.add(c)
        s.add(neg)
        txt = '(set-logic %s)\n' % ('ALL' if self.hasint else 'QF_NRA') + '\n'.join(l for l in s.to_smt2().splitlines() if not l.startswith('(set-'))
        t = time.time()
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % ms, '-'], input=txt.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=ms / 1000 * 1.3 + 2)
            r = p.stdout.decode().strip()
        except (subprocess.TimeoutExpired, OSError): r = 'unknown'
        self.stats['queries'] = self.stats.get('queries', 0) + 1
        self.stats['solver_s'] = self.stats.get('solver_s', 0.0) + time.time() - t
        return r

    def fvars(self, c):
        i = c.get_id(); r = self.fvm.get(i)
        if r is None or not r[1].eq(c):
            if c.num_args() == 0: v = frozenset() if num(c) or z3.is_true(c) or z3.is_false(c) else frozenset([i])
            else:
                v = frozenset()
                for x in c.children(): v |= self.fvars(x)
            r = (v, c); self.fvm[i] = r
        return r[0]

    def focused(self, neg):
        """the query with only the facts about quantities the obligation itself mentions (a weakening: only 'unsat' counts)"""
        V = self.fvars(neg)
        hard = [c for i, c in enumerate(self.cons) if i not in self.soft]
        tries = []
        if self.soft:
            # everything connected to the obligation without the links that only relate values to each other
            W = V; go = True
            while go:
                go = False
                for c in hard + self.pcz:
                    f = self.fvars(c)
                    if f & W and not f <= W: W = W | f; go = True
            tries.append([c for c in hard + self.pcz if self.fvars(c) <= W])
        n = len(self.cons) + len(self.pcz)
        tries += [[c for c in self.cons + self.pcz if self.fvars(c) <= V], [c for c in self.cons if self.fvars(c) <= V]]
        last = n
        for cs in tries:
            if len(cs) >= last: continue      # nothing left out
            last = len(cs)
            s = self.solver(self.timeout)
            for c in cs: s.add(c)
            s.add(neg)
            if self.run(s) == z3.unsat: return True
        return False

    # ---------------------------------------------------------------- obligations
    def query(self, neg):
        """pc & cons & neg"""
        self.sync_pc()
        s = self.solver(self.timeout)
        for c in self.cons: s.add(c)
        for c in self.pcz: s.add(c)
        s.add(neg)
        r = self.run(s)
        if r == z3.sat:
            m = s.model()
            out = {}
            for nm, (n, t) in self.inputs.items():
                v = m.eval(t, model_completion=True)
                out[nm] = tofloat(v)
            return 'sat', out
        return ('unsat' if r == z3.unsat else 'unknown'), None

def num(x):
    return z3.is_rational_value(x) or z3.is_int_value(x) or (x.num_args() > 0 and all(num(y) for y in x.children()))

def tofloat(v):
    if z3.is_algebraic_value(v): v = v.approx(30)
    f = v.as_fraction()
    return f

def polar_first(R, roots):
    """atan2 before the square roots of the same operands, so that both speak about the same (anchored) values"""
    for n in topo([r for r in roots if is_node(r)]):
        if n.attr == 'atan2': R.get(n)
