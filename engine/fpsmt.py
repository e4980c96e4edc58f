"""Exact bit-level encoding (QF_FPBV) of path conditions and assertions.  Expensive sub-terms can be cut to fresh variables
that carry only their interval (an over-approximation: 'unsat' stays a proof, 'sat' is then only a candidate)."""
import math, time
import z3
from dag import *

F32 = z3.Float32(); F64 = z3.Float64(); RNE = z3.RNE(); RTZ = z3.RTZ(); RNA = z3.RNA()
SORT = {'f32': F32, 'f64': F64}

def fpv(ty, x):
    if x != x: return z3.fpNaN(SORT[ty])
    if math.isinf(x): return z3.fpInfinity(SORT[ty], x < 0)
    return z3.fpBVToFP(z3.BitVecVal(fbits(ty, x), width(ty)), SORT[ty])

HEAVY = {'fmul', 'fdiv', 'fsqrt'}

class Fp:
    def __init__(self, pc, iv, cut=0):
        """cut 0: exact except libm calls; 1: also cut * / sqrt; 2: cut every arithmetic result"""
        self.pc = pc; self.iv = iv; self.cut = cut; self.memo = {}; self.cons = []; self.inputs = {}; self.approx = False; self.k = 0

    def const(self, ty, v):
        if ty[0] == 'f': return fpv(ty, float(v))
        if ty == 'i1': return z3.BoolVal(bool(v))
        return z3.BitVecVal(v & mask(ty), width(ty))

    def range_cons(self, t, ty, rng):
        lo, hi, nan = rng
        if ty[0] == 'f':
            c = []
            if lo > hi: return z3.fpIsNaN(t) if nan else z3.BoolVal(False)
            if not (lo == -math.inf and hi == math.inf): c = [z3.fpGEQ(t, fpv(ty, lo)), z3.fpLEQ(t, fpv(ty, hi))]
            elif not nan: return z3.Not(z3.fpIsNaN(t))
            else: return None
            c = z3.And(*c)
            return z3.Or(c, z3.fpIsNaN(t)) if nan else c
        w = width(ty)
        if w == 1: return None
        if lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1: return None
        return z3.And(t >= z3.BitVecVal(lo, w), t <= z3.BitVecVal(hi, w))

    def fresh(self, n):
        self.k += 1
        nm = 'cut!%d' % n.id
        t = z3.FP(nm, SORT[n.ty]) if n.ty[0] == 'f' else z3.Bool(nm) if n.ty == 'i1' else z3.BitVec(nm, width(n.ty))
        self.approx = True
        c = self.range_cons(t, n.ty, self.iv.get(n))
        if c is not None: self.cons.append(c)
        return t

    def get(self, x, ty):
        if not is_node(x): return self.const(ty, x)
        r = self.memo.get(x.id)
        if r is not None: return r
        stack = [x]
        while stack:
            n = stack[-1]
            if n.id in self.memo: stack.pop(); continue
            if self.iscut(n):
                self.memo[n.id] = self.fresh(n); stack.pop(); continue
            todo = [a for a in n.args if is_node(a) and a.id not in self.memo]
            if todo: stack += todo; continue
            self.memo[n.id] = self.comp(n); stack.pop()
        return self.memo[x.id]

    def iscut(self, n):
        if n.op == 'call': return True
        if self.cut >= 1 and n.op in HEAVY:
            if n.op == 'fmul' and any((not is_node(a)) and a != 0 and math.isfinite(a) and math.frexp(abs(a))[0] == 0.5 for a in n.args): return False
            return True
        if self.cut >= 2 and n.op in ('fadd', 'fsub'): return True
        return False

    def aty(self, n, i):
        a = n.args[i]
        if is_node(a): return a.ty if a.ty != 'ptr' else 'i64'
        if n.op in ('icmp',): return n.attr[1] if n.attr[1] != 'ptr' else 'i64'
        if n.op == 'fcmp':
            for b in n.args:
                if is_node(b): return b.ty
            return 'f64'
        if n.op == 'cast': return n.attr[1]
        if n.op == 'select' and i == 0: return 'i1'
        if n.op in ('not', 'band'): return 'i1'
        return n.ty if n.ty != 'ptr' else 'i64'

    def comp(self, n):
        op, ty = n.op, n.ty
        if op == 'var':
            nm, info = n.attr
            t = z3.FP(nm, SORT[ty]) if ty[0] == 'f' else z3.Bool(nm) if ty == 'i1' else z3.BitVec(nm, width(ty))
            self.inputs[nm] = (n, t)
            if info is not None:
                c = self.range_cons(t, ty, info)
                if c is not None: self.cons.append(c)
                if ty[0] == 'f': self.cons.append(z3.Not(z3.And(z3.fpIsZero(t), z3.fpIsNegative(t))))
            return t
        A = [self.get(a, self.aty(n, i)) for i, a in enumerate(n.args)]
        if op == 'fadd': return z3.fpAdd(RNE, *A)
        if op == 'fsub': return z3.fpSub(RNE, *A)
        if op == 'fmul': return z3.fpMul(RNE, *A)
        if op == 'fdiv': return z3.fpDiv(RNE, *A)
        if op == 'fsqrt': return z3.fpSqrt(RNE, A[0])
        if op == 'fneg': return z3.fpNeg(A[0])
        if op == 'fabs': return z3.fpAbs(A[0])
        if op in ('fmin', 'fmax'):
            a, b = A
            c = z3.fpLEQ(a, b) if op == 'fmin' else z3.fpGEQ(a, b)
            return z3.If(z3.fpIsNaN(a), b, z3.If(z3.fpIsNaN(b), a, z3.If(c, a, b)))
        if op == 'fround': return z3.fpRoundToIntegral(RNA, A[0])
        if op == 'froundeven': return z3.fpRoundToIntegral(RNE, A[0])
        if op == 'ffloor': return z3.fpRoundToIntegral(z3.RTN(), A[0])
        if op == 'fceil': return z3.fpRoundToIntegral(z3.RTP(), A[0])
        if op == 'ftrunc': return z3.fpRoundToIntegral(RTZ, A[0])
        if op == 'select': return z3.If(A[0], A[1], A[2])
        if op == 'not': return z3.Not(A[0])
        if op == 'band': return z3.And(A[0], A[1])
        if op == 'fcmp':
            a, b = A; p = n.attr
            if p == 'ord': return z3.And(z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsNaN(b)))
            if p == 'olt': return z3.fpLT(a, b)
            if p == 'ole': return z3.fpLEQ(a, b)
            if p == 'oeq': return z3.fpEQ(a, b)
        if op == 'icmp':
            a, b = A; p = n.attr[0]
            if n.attr[1] == 'i1': return a == b if p == 'eq' else self.fresh(n)
            if p == 'eq': return a == b
            if p == 'slt': return a < b
            if p == 'sle': return a <= b
            if p == 'ult': return z3.ULT(a, b)
            if p == 'ule': return z3.ULE(a, b)
        if op == 'cast':
            k, ft = n.attr[0], n.attr[1]
            a = A[0]; w = width(ty)
            if k == 'fpext' or k == 'fptrunc': return z3.fpFPToFP(RNE, a, SORT[ty])
            if k == 'sitofp': return z3.fpSignedToFP(RNE, a if not z3.is_bool(a) else z3.If(a, z3.BitVecVal(-1, 8), z3.BitVecVal(0, 8)), SORT[ty])
            if k == 'uitofp': return z3.fpUnsignedToFP(RNE, a if not z3.is_bool(a) else z3.If(a, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), SORT[ty])
            if k == 'fptosi':
                lo, hi, nan = self.iv.get(n.args[0])
                if nan or not (lo > -2.0**(w - 1) and hi < 2.0**(w - 1)): return self.fresh(n)
                return z3.fpToSBV(RTZ, a, z3.BitVecSort(w))
            if k == 'zext': return z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w)) if z3.is_bool(a) else z3.ZeroExt(w - a.size(), a)
            if k == 'sext': return z3.If(a, z3.BitVecVal(-1, w), z3.BitVecVal(0, w)) if z3.is_bool(a) else z3.SignExt(w - a.size(), a)
            if k == 'trunc':
                if ty == 'i1': return z3.Extract(0, 0, a) == 1
                return z3.Extract(w - 1, 0, a)
            if k == 'bitcast':
                if ty[0] == 'f': return z3.fpBVToFP(a, SORT[ty])
                return z3.fpToIEEEBV(a)
            if k in ('ptrtoint', 'inttoptr'): return a
        m = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b,
             'xor': lambda a, b: a ^ b, 'shl': lambda a, b: a << b, 'lshr': z3.LShR, 'ashr': lambda a, b: a >> b, 'udiv': z3.UDiv, 'sdiv': lambda a, b: a / b,
             'urem': z3.URem, 'srem': z3.SRem}.get(op)
        if m is not None and ty != 'i1': return m(*A)
        if op == 'xor': return z3.Xor(*A)
        if op == 'or': return z3.Or(*A)
        if op == 'and': return z3.And(*A)
        return self.fresh(n)

    def query(self, neg, timeout_ms, stats, all_inputs=()):
        """neg: z3 formula builder result; returns (verdict, model)"""
        fs = []
        for n, v in self.pc:
            t = self.get(n, 'i1')
            fs.append(t if v else z3.Not(t))
        s = z3.SolverFor('QF_FP') if False else z3.Solver()
        s.set('timeout', int(timeout_ms))
        for c in self.cons: s.add(c)
        for c in fs: s.add(c)
        # intervals already deduced on this path are facts as well
        s.add(neg)
        t0 = time.time()
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        stats['queries'] = stats.get('queries', 0) + 1
        stats['solver_s'] = stats.get('solver_s', 0.0) + time.time() - t0
        if r == z3.unsat: return 'unsat', None
        if r == z3.unknown: return 'unknown', None
        m = s.model(); out = {}
        for nm, (n, t) in self.inputs.items():
            v = m.eval(t, model_completion=True)
            if n.ty[0] == 'f':
                b = m.eval(z3.fpToIEEEBV(t), model_completion=True)
                if z3.fpIsNaN(v) is not None and v.isNaN(): out[nm] = math.nan
                else: out[nm] = bitsf(n.ty, b.as_long())
            elif n.ty == 'i1': out[nm] = int(z3.is_true(v))
            else: out[nm] = v.as_signed_long()
        return 'sat', out
