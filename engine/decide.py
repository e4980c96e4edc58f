"""Deciding one obligation (path condition => check) and turning solver models into replayable inputs."""
import math, time, threading, random
from fractions import Fraction
import numpy as np
import z3
import dag
from dag import *
from interval import _maybe_negzero
import realsmt, fpsmt
from realsmt import NotReal, Infeasible, RV

class Budget:
    def __init__(self, tier, deadline):
        q = tier == 'quick'
        self.real = 4000 if q else 60000
        self.fp = (1500, 3000, 15000) if q else (5000, 15000, 180000)
        self.deadline = deadline
    def left(self): return self.deadline - time.time()

def with_watchdog(fn, ms):
    """z3's own timeout is not always honoured: interrupt the context from a timer as a backstop"""
    t = threading.Timer(ms / 1000.0 * 1.5 + 2, lambda: z3.main_ctx().interrupt())
    t.daemon = True; t.start()
    try: return fn()
    finally: t.cancel()

def f32near(fr):
    """nearest float32 of a Fraction"""
    try: x = float(fr)
    except OverflowError: x = math.inf if fr > 0 else -math.inf
    return r32(x)

def model_inputs(st, model):
    """full assignment for the path's inputs"""
    env = {}
    for name, ty, n in st.inputs:
        if not is_node(n): env[name] = n; continue
        info = n.attr[1]
        v = model.get(name)
        if ty[0] == 'f':
            if v is None: v = (info[0] + info[1]) / 2 if info and math.isfinite(info[0] + info[1]) else 0.37
            x = rnd(ty, f32near(v)) if isinstance(v, Fraction) else rnd(ty, v)
            if info is not None:
                if not x >= info[0]: x = info[0]
                if x > info[1]: x = info[1]
                if x == 0: x = 0.0
            env[name] = x
        else:
            if v is None: v = info[0] if info else 0
            v = int(math.floor(v)) if isinstance(v, Fraction) else int(v)
            if info is not None: v = min(max(v, info[0]), info[1])
            env[name] = v
    return env

def neg_formula_real(R, kind, args):
    """(formula of a violation on the machine values, weakened by error bounds)"""
    if kind == 'near':
        x, y = R.get(args[0]), R.get(args[1])
        if is_node(args[2]): raise NotReal('symbolic tolerance')
        for a in args[:2]:
            if R.iv.get(a)[2]: raise NotReal('possible NaN')
        E = R.absE(args[0]) + R.absE(args[1])
        if not math.isfinite(E): raise NotReal('unbounded rounding error')
        # native fabs(a-b) rounds once in double
        tol = args[2] - E - abs(args[2]) * 2.0**-50
        d = x.e - y.e
        if E > 0.05 * args[2]:
            # keep the errors proportional to the values
            T = [R.errsym(a) for a in args[:2] if is_node(a)]
            tz = RV(args[2] - abs(args[2]) * 2.0**-50)
            for t in T:
                if t is not None: tz = tz - t
            return z3.Or(d > tz, -d > tz), (d, args[2])
        return z3.Or(d > RV(tol), -d > RV(tol)), (d, args[2])
    if kind == 'range':
        x = R.get(args[0])
        if R.iv.get(args[0])[2]: raise NotReal('possible NaN')
        E = R.absE(args[0])
        # a value computed by clamping keeps exact bounds in the interval domain; here only the relaxed form
        return z3.Or(x.e < RV(args[1]) + RV(E), x.e > RV(args[2]) - RV(E)), None
    if kind == 'bool':
        return R.cond(args[0], 0, True), None
    raise NotReal('kind ' + kind)

def neg_formula_fp(F, kind, args):
    if kind == 'bool': return z3.Not(F.get(args[0], 'i1'))
    if kind == 'same':
        a, b = F.get(args[0], 'f32'), F.get(args[1], 'f32')
        return z3.Not(z3.Or(z3.fpEQ(a, b), z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b))))
    if kind == 'range':
        a = F.get(args[0], 'f32')
        return z3.Not(z3.And(z3.fpGEQ(a, fpsmt.fpv('f32', args[1])), z3.fpLEQ(a, fpsmt.fpv('f32', args[2]))))
    if kind == 'near':
        a, b = F.get(args[0], 'f64'), F.get(args[1], 'f64')
        return z3.Not(z3.fpLEQ(z3.fpAbs(z3.fpSub(fpsmt.RNE, a, b)), F.get(args[2], 'f64')))
    if kind == 'feasible': return z3.BoolVal(True)
    raise KeyError(kind)

def trivial(st, kind, args, iv):
    if kind == 'bool':
        c = args[0]
        if not is_node(c): return bool(c)
        k = st_decide(st, iv, c)
        return None if k is None else bool(k)
    if kind in ('near', 'same', 'range'):
        if not any(is_node(a) for a in args):
            if kind == 'near': return abs(args[0] - args[1]) <= args[2]
            if kind == 'same': return args[0] == args[1] or (args[0] != args[0] and args[1] != args[1])
            return args[1] <= args[0] <= args[2]
    if kind == 'same' and args[0] is args[1]: return True
    if kind == 'near':
        a, b = args[0], args[1]
        A, B = iv.get(a), iv.get(b)
        if not A[2] and not B[2] and not is_node(args[2]):
            if a is b and math.isfinite(A[0]) and math.isfinite(A[1]): return True
            if max(A[1] - B[0], B[1] - A[0]) <= args[2]: return True
    if kind in ('near', 'same'):
        a, b = rebuild(st, args[0], iv), rebuild(st, args[1], iv)
        if not is_node(a) and not is_node(b): return None
        if a is b:
            A = iv.get(args[0])
            if kind == 'same' or (not A[2] and math.isfinite(A[0]) and math.isfinite(A[1])): return True
    if kind == 'range':
        A = iv.get(args[0])
        if not A[2] and A[0] >= args[1] and A[1] <= args[2]: return True
    return None

def rebuild(st, x, iv):
    """the same value simplified under the facts of the whole path (equal on every execution of it)"""
    if not is_node(x): return x
    memo = getattr(st, '_rb', None)
    if memo is None: memo = st._rb = {}
    for n in topo([x]):
        if n.id in memo: continue
        a = [memo[z.id] if is_node(z) else z for z in n.args]
        r = n
        if n.ty[0] == 'f' and n.op != 'var':
            A = [iv.get(z) for z in a] if all(is_node(z) or isinstance(z, float) for z in a) and n.op != 'select' else None
            if n.op in ('fmin', 'fmax') and not A[0][2] and not A[1][2]:
                if A[0][1] <= A[1][0]: r = a[0] if n.op == 'fmin' else a[1]
                elif A[1][1] <= A[0][0]: r = a[1] if n.op == 'fmin' else a[0]
                elif changed(a, n): r = fop(n.op, n.ty, *a)
            elif n.op == 'call' and n.attr == 'fmod' and not A[0][2] and not A[1][2] and A[1][0] > 0 and max(abs(A[0][0]), abs(A[0][1])) < A[1][0]: r = a[0]
            elif n.op == 'fabs' and not A[0][2] and A[0][0] > 0: r = a[0]
            elif n.op == 'select':
                k = st_decide(st, iv, n.args[0]) if is_node(n.args[0]) else n.args[0]
                if k is not None: r = a[1] if k else a[2]
                elif changed(a, n): r = dag.select(a[0], a[1], a[2], n.ty)
            elif changed(a, n):
                if n.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fabs', 'fmin', 'fmax', 'fsqrt', 'fround', 'ffloor', 'fceil', 'ftrunc', 'froundeven', 'fcopysign'): r = fop(n.op, n.ty, *a)
                elif n.op == 'cast': r = dag.cast(n.attr[0], n.attr[1], n.ty, a[0])
                elif n.op == 'call': r = dag.raw('call', n.ty, tuple(a), n.attr) if any(is_node(z) for z in a) else n
        if is_node(r) and r.op != 'var':
            v = iv.get(r)
            if v[0] == v[1] and not v[2] and r.ty != 'i1' and (r.ty[0] != 'f' or (math.isfinite(v[0]) and (v[0] != 0 or not _maybe_negzero(r)))): r = v[0] if r.ty[0] == 'f' else v[0] & mask(r.ty)
        memo[n.id] = r
    return memo[x.id]

def changed(a, n): return any(p is not q for p, q in zip(a, n.args))

def st_decide(st, iv, c):
    val = 1
    while c.op == 'not': c = c.args[0]; val = 1 - val
    k = st.pcset.get(c.id)
    # pcset may hold facts learnt after the check; only those before it count (caller passes a truncated copy)
    if k is not None: return 1 if k == val else 0
    r = iv.get(c)
    if r[0] == r[1]: return 1 if r[0] == val else 0
    if c.op == 'band':
        a = st_decide(st, iv, c.args[0]) if is_node(c.args[0]) else c.args[0]
        b = st_decide(st, iv, c.args[1]) if is_node(c.args[1]) else c.args[1]
        if a == 0 or b == 0: return 1 - val
        if a == 1 and b == 1: return val
    return None

def peel(a, b, iv):
    """arguments of clamps common to both sides: |clamp(p) - clamp(q)| <= |p - q|"""
    def strip(x):
        while is_node(x) and x.op == 'cast' and x.attr[0] == 'fpext': x = x.args[0]
        return x
    def mm(x):
        if not is_node(x) or x.op not in ('fmin', 'fmax'): return None
        for c, o in (x.args, x.args[::-1]):
            if not is_node(c) and is_node(o): return x.op, float(c), o
    while True:
        a, b = strip(a), strip(b)
        p, q = mm(a), mm(b)
        if not p or not q or p[:2] != q[:2] or iv.get(p[2])[2] or iv.get(q[2])[2]: return a, b
        a, b = p[2], q[2]

def poly_bound(R, e):
    """enclosure of a real term, monomial by monomial of its expansion; None if it does not expand"""
    p = poly_constant(e, parts=True)
    if p is None: return None
    rng = {}
    for i, inf in list(R.memo.items()):
        if inf is None: continue
        try: n = dag._nodes[i]; lo, hi = R.bounds(n)
        except (NotReal, KeyError): continue
        k = inf.e.get_id()
        o = rng.get(k)
        rng[k] = (max(lo, o[0]), min(hi, o[1])) if o else (lo, hi)
    tl = th = Fraction(0)
    for m, c in p.items():
        lo, hi = Fraction(1), Fraction(1)
        for k in set(m):
            r = rng.get(k)
            if r is None or not (math.isfinite(r[0]) and math.isfinite(r[1])): return None
            x, y = Fraction(r[0]), Fraction(r[1]); j = m.count(k)
            if j % 2 == 0: x, y = (Fraction(0) if x <= 0 <= y else min(x * x, y * y)), max(x * x, y * y); j //= 2
            for _ in range(j):
                v = (lo * x, lo * y, hi * x, hi * y); lo, hi = min(v), max(v)
        a, b = c * lo, c * hi
        tl += min(a, b); th += max(a, b)
    return tl, th

def poly_constant(e, cap=2000, parts=False):
    """the constant a real term expands to as a polynomial, or None"""
    memo = {}
    def go(x):
        r = memo.get(x.get_id())
        if r is not None: return r
        if z3.is_rational_value(x):
            f = x.as_fraction(); r = {(): Fraction(f.numerator, f.denominator)} if f else {}
        else:
            k = x.decl().kind(); a = None
            if k == z3.Z3_OP_DIV and all(z3.is_rational_value(y) for y in x.children()) and x.arg(1).as_fraction() != 0:
                f = x.arg(0).as_fraction() / x.arg(1).as_fraction(); r = {(): Fraction(f.numerator, f.denominator)} if f else {}
                memo[x.get_id()] = r
                return r
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL): a = [go(y) for y in x.children()]
            if a is None: r = {(x.get_id(),): Fraction(1)}
            elif k == z3.Z3_OP_MUL:
                r = a[0]
                for b in a[1:]:
                    q = {}
                    if len(r) * len(b) > cap * 8: raise OverflowError
                    for m, c in r.items():
                        for n, d in b.items():
                            t = tuple(sorted(m + n)); q[t] = q.get(t, 0) + c * d
                    r = {m: c for m, c in q.items() if c}
            else:
                r = dict(a[0]) if k != z3.Z3_OP_UMINUS else {m: -c for m, c in a[0].items()}
                for b in a[1:]:
                    for m, c in b.items():
                        v = r.get(m, 0) + (c if k == z3.Z3_OP_ADD else -c)
                        if v: r[m] = v
                        else: r.pop(m, None)
            if len(r) > cap: raise OverflowError
        memo[x.get_id()] = r
        return r
    try: r = go(e)
    except (OverflowError, RecursionError): return None
    if parts: return r
    if any(m for m in r): return None
    return r.get((), Fraction(0))

def infeasible(st, plen, stats, ms=3000):
    try:
        R = realsmt.Real(st.pc[:plen], st.iv, ms, stats)
        R.sync_pc()
        v, m = with_watchdog(lambda: R.query(z3.BoolVal(True)), ms)
        return v == 'unsat'
    except Infeasible: return True
    except (NotReal, z3.Z3Exception): return False

def decide(st, kind, cid, args, plen, B, stats, replay):
    """-> (verdict, detail): 'proved', 'violated' (replayed), 'open'"""
    pc = st.pc[:plen]
    iv = st.iv
    t = trivial(st, kind, args, iv) if kind != 'feasible' else None
    if t is True: return 'proved', 'structural/interval'
    notes = []
    tried = 0; small = True
    def cand(model, how):
        nonlocal tried
        tried += 1
        env = model_inputs(st, model)
        r = replay(env, jitter=(tried <= 2))
        return r
    # ---- real relaxation
    if kind in ('near', 'range', 'bool', 'feasible') and B.left() > 1:
        try:
            R = realsmt.Real(pc, iv, min(B.real, max(500, int(B.left() * 1000))), stats, cache=st.__dict__.setdefault('_den', {}))
            R.sync_pc()
            if kind == 'feasible': neg, aux = z3.BoolVal(True), None
            else:
                realsmt.polar_first(R, args)
                neg, aux = neg_formula_real(R, kind, args)
            if kind == 'near':
                # both sides may be the same polynomial
                c = poly_constant(aux[0])
                if c is not None and abs(c) <= Fraction(args[2]) * Fraction(999, 1000) - Fraction(R.absE(args[0]) + R.absE(args[1])):
                    return 'proved', 'real relaxation (polynomial normal form)'
                p, q = peel(args[0], args[1], iv)
                w = poly_bound(R, R.get(p).e - R.get(q).e)
                if w is not None and max(-w[0], w[1]) <= Fraction(args[2]) * Fraction(999, 1000) - Fraction(R.absE(p) + R.absE(q)):
                    return 'proved', 'real relaxation (polynomial normal form, interval coefficients)'
            for i in range(1):
                v, m = with_watchdog(lambda: R.query(neg), R.timeout)
                if v == 'unsat': return 'proved', 'real relaxation (NRA)'
                if v == 'sat':
                    if aux is not None:
                        # prefer a model with a clear margin: survives rounding to float32
                        for mul in (1000, 30, 4):
                            v2, m2 = with_watchdog(lambda: R.query(z3.Or(aux[0] > RV(aux[1] * mul), -aux[0] > RV(aux[1] * mul))), R.timeout)
                            if v2 == 'sat':
                                r = cand(m2, 'real')
                                if r: return 'violated', r
                                break
                    r = cand(m, 'real')
                    if r: return 'violated', r
                    notes.append('real: candidate did not replay')
                    # the exact difference is close to the tolerance at most: bit-level reasoning only pays off for small formulas
                    if aux is not None and v2 == 'unsat' and sum(1 for n in topo([x for x in args if is_node(x)])) > 60: small = False
                else:
                    if kind != 'feasible' and with_watchdog(lambda: R.focused(neg), R.timeout * 2): return 'proved', 'real relaxation (NRA, focused)'
                    parts = [neg]
                    ms = min(R.timeout * 6, max(1000, int(B.left() * 1000)))
                    if all(R.cvc5(q, ms) == 'unsat' for q in parts): return 'proved', 'real relaxation (cvc5 NRA)'
                    notes.append('real: unknown')
        except Infeasible: return 'proved', 'path infeasible (interval)'
        except NotReal as e: notes.append('real: ' + str(e)[:120])
        except z3.Z3Exception as e: notes.append('real: z3 ' + str(e)[:60])
    # ---- exact floating point, coarsest abstraction first
    for cut, ms in zip((2, 1, 0), B.fp):
        if not small: break
        if B.left() < 1: notes.append('out of time'); break
        try:
            F = fpsmt.Fp(pc, iv, cut)
            neg = neg_formula_fp(F, kind, args)
            ms = min(ms, max(500, int(B.left() * 1000)))
            v, m = with_watchdog(lambda: F.query(neg, ms, stats), ms)
        except (KeyError, z3.Z3Exception, ValueError) as e:
            notes.append('fp%d: %s' % (cut, str(e)[:60])); continue
        if v == 'unsat': return 'proved', 'floating point (QF_FPBV, cut %d)' % cut
        if v == 'sat':
            r = cand(m, 'fp')
            if r: return 'violated', r
            notes.append('fp%d: candidate did not replay' % cut)
            if not F.approx: notes.append('EXACT-MODEL-DID-NOT-REPLAY'); break
        else: notes.append('fp%d: unknown' % cut)
    return 'open', '; '.join(notes)
