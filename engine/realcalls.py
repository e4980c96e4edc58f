"""Contracts for libm calls in the real relaxation (see DESIGN.md: trusted base)."""
import math
from fractions import Fraction
import z3
from dag import *
from interval import INF, _maybe_negzero

def call(S, n):
    from realsmt import Info, RV, NotReal, U, ETA, SL, LIBERR
    f, a, ty = n.attr, n.args, n.ty
    u = U[ty]; eta = ETA[ty]
    LE = 2 * LIBERR * u
    if f == 'fmod':
        x = S.get(a[0])
        if is_node(a[1]): return S.opaque(n, 'fmod')
        c = abs(a[1])
        lo, hi, nan = S.iv.get(a[0])
        if nan or not math.isfinite(lo) or not math.isfinite(hi): raise NotReal('fmod of unbounded')
        k0, k1 = int(lo / c), int(hi / c)      # truncation toward zero
        if lo / c < 0: k0 -= 1
        k0 = int(math.floor(lo / c)) if lo < 0 else int(lo // c)
        k1 = int(hi // c) if hi >= 0 else int(math.ceil(hi / c))
        if lo < 0: k0 = int(math.ceil(lo / c - 1e-9)) if lo / c != int(lo / c) else int(lo / c)
        # be generous; impossible cases are excluded by their guards
        ks = list(range(min(k0, int(lo / c)) - (1 if lo < 0 else 0), max(k1, int(hi / c)) + 1))
        ks = [k for k in ks if (k > 0 and hi >= k * c) or k == 0 or (k < 0 and lo <= k * c)]
        if len(ks) > 12: return S.opaque(n, 'fmod with many periods')
        E = S.absE(a[0])
        if ks == [0]: return x
        r = S.fresh('m')
        alts = []
        for k in ks:
            g = []
            cc = RV(c)
            if k > 0: g = [x.e >= k * cc - RV(E), x.e < (k + 1) * cc + RV(E)]
            elif k < 0: g = [x.e <= k * cc + RV(E), x.e > (k - 1) * cc - RV(E)]
            else: g = [x.e < cc + RV(E), x.e > -cc - RV(E)]
            alts.append(z3.And(r == x.e - k * cc, *g))
        S.cons.append(z3.Or(*alts) if len(alts) > 1 else alts[0])
        # truncated remainder: sign of the argument, or 0
        if x.s: S.cons.append(z3.And(z3.Implies(x.e >= 0, r >= RV(-E)), z3.Implies(x.e <= 0, r <= RV(E))))
        return Info(r, 0.0, E)
    if f == 'pow' and not is_node(a[1]):
        return pw(S, n, a[0], a[1])
    if f == 'cbrt':
        x = S.get(a[0]); t = S.fresh('c')
        S.cons.append(t * t * t == x.e)
        if x.A == 0: return Info(t, (x.R * 0.34 + LE) * SL, 0.0)
        lo, hi = S.bounds(a[0])
        if lo > 0: return Info(t, LE + x.R, x.A / (3 * lo ** (2 / 3)) * SL)
        return Info(t, LE + x.R, 2 * x.A ** (1 / 3))
    if f in ('sin', 'cos', 'atan2', 'exp', 'log', 'log10', 'atan', 'log2', 'exp2'):
        return trans(S, n)
    return S.opaque(n, f)

def pw(S, n, base, c):
    from realsmt import Info, RV, NotReal, U, ETA, SL, LIBERR
    ty = n.ty; u = U[ty]; eta = ETA[ty]; LE = 2 * LIBERR * u
    x = S.get(base)
    lo, hi, nan = S.iv.get(base)
    if nan: raise NotReal('possible NaN into pow')
    blo, bhi = S.bounds(base)
    if float(c).is_integer() and 1 <= c <= 8:
        k = int(c)
        e = x.e
        for _ in range(k - 1): e = e * x.e
        m = max(abs(blo), abs(bhi))
        R = ((1 + x.R) ** k * (1 + LE) - 1) * SL
        A = (k * (m * (1 + x.R) + x.A) ** (k - 1) * x.A) * (1 + LE) * SL + eta
        return Info(e, R, A)
    if lo < 0: raise NotReal('pow of possibly negative base')
    # rational exponent with small denominator nearby?  (1/3 -> cube root)
    fr = Fraction(c).limit_denominator(12)
    near = abs(float(fr) - c) < 1e-6
    vlo, vhi, vn = S.iv.get(n)
    if near and fr.numerator == 1 and fr.denominator in (2, 3):
        k = fr.denominator
        t = S.fresh('p')
        xe = x.e if blo >= 0 else z3.If(x.e >= 0, x.e, RV(0))
        e = t
        for _ in range(k - 1): e = e * t
        S.cons += [t >= 0, e == xe]
        # x^c = x^(1/k) * x^(c-1/k):  relative difference |ln x|*|c-1/k|
        d = abs(c - 1.0 / k) + 1e-17
        if lo > 0: rho = max(abs(math.log(lo)), abs(math.log(max(hi, lo)))) * d * 1.01
        else: rho = 88.0 * d * 1.01 if ty == 'f32' else 745 * d * 1.01
        if x.A == 0:
            return Info(t, ((1 + x.R / k * 1.01) * (1 + rho) * (1 + LE) - 1) * SL, 0.0)
        if blo > 0:
            A = x.A / (k * blo ** (1 - 1.0 / k)) * SL
        else: A = 2 * x.A ** (1.0 / k)
        return Info(t, ((1 + x.R) * (1 + rho) * (1 + LE) - 1) * SL, A)
    # general exponent: fresh value p = e(base)^c, with algebraic links to other powers
    if hi > 1e6: raise NotReal('pow of large base')
    t = S.fresh('p')
    lz = max(0.0, blo)
    pl = lz ** c if (lz > 0 or c > 0) else None
    ph = max(bhi, 0.0) ** c if (c > 0 or bhi > 0) else None
    if c < 0: pl, ph = (max(bhi, 0) ** c if bhi > 0 else 0.0), (lz ** c if lz > 0 else None)
    if pl is not None: S.cons.append(t >= RV(pl * (1 - 1e-12)))
    if ph is not None: S.cons.append(t <= RV(ph * (1 + 1e-12)))
    xe = x.e if blo >= 0 or any(r.get('c') is not None and x.e.eq(r['t']) for r in S.calls) else z3.If(x.e >= 0, x.e, RV(0))
    # convexity: tangents at the ends and the secant (slack for our own arithmetic)
    h2 = max(bhi, 0.0)
    if c > 0 and h2 > lz and h2 < 1e3:
        sl = 1e-11 * max(1.0, h2 ** c, c * h2 ** (c - 1) * h2)
        sec = (h2 ** c - lz ** c) / (h2 - lz)
        up = RV(lz ** c + sl) + RV(sec) * (xe - RV(lz)); dn = RV(lz ** c - sl) + RV(sec) * (xe - RV(lz))
        S.cons.append(t <= up if c >= 1 else t >= dn)
        for q in (lz, h2):
            if q == 0 and c < 1: continue
            g = c * q ** (c - 1)
            if not g < 1e6: continue
            tan = RV(q ** c) + RV(g) * (xe - RV(q))
            S.cons.append(t >= tan - RV(sl) if c >= 1 else t <= tan + RV(sl))
    # error: derivative bound
    if x.A == 0:
        R = (((1 + x.R) ** c if c > 0 else (1 - x.R) ** c) * (1 + LE) - 1) * SL if x.R else LE
        A = eta
    else:
        # base = x(1+r)+d with |r| <= R, |d| <= A: the relative part goes through as a relative error, A through the derivative
        absx = x.A
        if c >= 1: der = c * (max(bhi, 0) * (1 + x.R) + absx) ** (c - 1)
        elif blo * (1 - x.R) - absx > 0: der = abs(c) * (blo * (1 - x.R) - absx) ** (c - 1)
        else: der = None
        if der is not None: A = der * absx * SL
        elif 0 < c < 1: A = absx ** c * SL
        else: raise NotReal('pow derivative unbounded')
        R = (((1 + x.R) ** abs(c) if c > 0 else (1 - x.R) ** c) * (1 + LE) - 1) * SL
        A = A * (1 + LE) + eta
    rec = dict(t=t, xe=xe, c=c, lo=lz, hi=bhi)
    # axioms against earlier powers
    for r in S.calls:
        if r.get('c') is None: continue
        if r['c'] == c:
            # same exponent: monotone, and Lipschitz on [min lo, max hi]
            S.cons.append(z3.Implies(xe <= r['xe'], (t <= r['t']) if c > 0 else (t >= r['t'])))
            S.cons.append(z3.Implies(xe >= r['xe'], (t >= r['t']) if c > 0 else (t <= r['t'])))
            lip(S, t, xe, r['t'], r['xe'], c, min(lz, r['lo']), max(bhi, r['hi']))
        elif abs(r['c'] - c) < 1e-5 and c > 0 and max(bhi, r['hi']) <= 1.1:
            # almost the same exponent: w = (r.xe)^c differs from r.t by at most |c - r.c| * max |x^e ln x| on [0, 1.1]
            w = S.fresh('w')
            dd = RV(abs(r['c'] - c) * 0.4 / min(c, r['c']) + 1e-15)
            S.cons += [w - r['t'] <= dd, r['t'] - w <= dd, w >= 0, z3.Implies(xe <= r['xe'], t <= w), z3.Implies(xe >= r['xe'], t >= w)]
            lip(S, t, xe, w, r['xe'], c, min(lz, r['lo']), max(bhi, r['hi']))
        # inverse link: xe is (close to) r.t = r.xe^r.c  =>  xe^c ~ r.xe^(r.c*c)
        ab = r['c'] * c
        if abs(ab - 1) < 1e-5 and r['hi'] <= 1.1:
            # w = (r.t)^c = r.xe^(ab);  |w - r.xe| <= max |x^ab - x| on [0,1.1] <= |ab-1| * max |x ln x| <= |ab-1|*0.4 (+)
            w = S.fresh('w')
            dd = RV(abs(ab - 1) * 0.5 + 1e-15)
            S.cons += [w - r['xe'] <= dd, r['xe'] - w <= dd, w >= 0]
            if xe.eq(r['t']): S.cons.append(t == w)
            else: lip(S, t, xe, w, r['t'], c, min(lz, max(0.0, r['lo']) ** r['c']), max(bhi, r['hi'] ** r['c']))
    S.calls.append(rec)
    return Info(t, R, A)

def lip(S, t1, x1, t2, x2, c, lo, hi):
    """|x1^c - x2^c| <= L |x1-x2|, on [lo,hi]"""
    from realsmt import RV
    if c >= 1: L = c * hi ** (c - 1)
    elif lo > 0: L = abs(c) * lo ** (c - 1)
    else: return
    L = RV(L * (1 + 1e-9))
    d = S.fresh('d')
    S.cons += [d >= x1 - x2, d >= x2 - x1, z3.Or(d == x1 - x2, d == x2 - x1), t1 - t2 <= L * d, t2 - t1 <= L * d]

def trans(S, n):
    from realsmt import Info, RV, NotReal, U, ETA, SL, LIBERR
    f, a, ty = n.attr, n.args, n.ty
    u = U[ty]; eta = ETA[ty]; LE = 2 * LIBERR * u
    if f in ('sin', 'cos'):
        x = S.get(a[0])
        lo, hi, nan = S.iv.get(a[0])
        if nan or not math.isfinite(lo) or not math.isfinite(hi): raise NotReal('sin/cos of unbounded')
        key = ('sc', x.e.get_id())
        for r in S.calls:
            if r.get('k') == 'sc' and r['id'] == x.e.get_id() and r['e'].eq(x.e):
                return Info(r[f], 0.0, S.absE(a[0]) + LE)
        s, c = S.fresh('sn'), S.fresh('cs')
        S.cons += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]
        rec = dict(k='sc', id=x.e.get_id(), e=x.e, sin=s, cos=c)
        for r in S.calls:
            if r.get('k') == 'at':
                # theta = atan2(y,x):  if the argument is theta + d + 2 k pi  then  |x - h cos(arg)| <= h |d|  etc.
                hit = False
                for k in (-1, 0, 1):
                    dif = x.e - r['t'] - RV(k * 2 * math.pi)
                    if not S.infer: break
                    for D in (0.1, 0.018, 0.0175, 1e-3, 1e-4, 1e-5, 1e-6):
                        if not S.prove(z3.And(dif <= RV(D), dif >= RV(-D))): break
                        hit = D
                    if hit:
                        dd = RV(hit + 1e-12)
                        S.cons.append(z3.And(c - r['cos'] <= dd, r['cos'] - c <= dd, s - r['sin'] <= dd, r['sin'] - s <= dd))
                        for q, xe in S.sqrts + [(r['h'], None)]:
                            hm = next((K for K in (1, 2, 10, 50, 100, 130, 150) if K < r['hm'] and S.prove(q <= K)), r['hm'])
                            if hm >= 1e6: continue
                            H = RV(hm * (hit + 1e-12))
                            if xe is None or S.prove(xe == r['x'] * r['x'] + r['y'] * r['y']): S.cons.append(z3.And(q * c - r['x'] <= H, r['x'] - q * c <= H, q * s - r['y'] <= H, r['y'] - q * s <= H))
                        break
                for k in () if hit else (-1, 0, 1):
                    d = S.fresh('d')
                    dif = x.e - r['t'] - RV(k * 2 * math.pi)
                    S.cons += [d >= dif, d >= -dif, z3.Or(d == dif, d == -dif)]
                    dd = d + RV(1e-12)
                    g = z3.And(dif <= RV(0.03), dif >= RV(-0.03))
                    S.cons.append(z3.Implies(g, z3.And(c - r['cos'] <= dd, r['cos'] - c <= dd, s - r['sin'] <= dd, r['sin'] - s <= dd)))
            if r.get('k') == 'sc':
                # 1-Lipschitz between two arguments
                for k in (-1, 0, 1):
                    dif = x.e - r['e'] - RV(k * 2 * math.pi)
                    d = S.fresh('d')
                    S.soft |= set(range(len(S.cons), len(S.cons) + 7))
                    S.cons += [d >= dif, d >= -dif, z3.Or(d == dif, d == -dif)]
                    dd = d + RV(1e-12)
                    S.cons += [c - r['cos'] <= dd, r['cos'] - c <= dd, s - r['sin'] <= dd, r['sin'] - s <= dd]
        S.calls.append(rec)
        return Info(rec[f], 0.0, S.absE(a[0]) + LE)
    if f == 'atan2':
        y, x = S.get(a[0]), S.get(a[1])
        if x.A or y.A:
            x, y = S.anchor(a[1]), S.anchor(a[0])
        t, s, c, h = S.fresh('at'), S.fresh('as'), S.fresh('ac'), S.fresh('ah')
        PI = math.pi
        S.cons += [t <= RV(PI * (1 + 1e-15)), t >= RV(-PI * (1 + 1e-15)), h >= 0, h * h == x.e * x.e + y.e * y.e, h * c == x.e, h * s == y.e, s * s + c * c == 1]
        S.cons += [z3.Implies(y.e > 0, t > 0), z3.Implies(y.e < 0, t < 0), z3.Implies(z3.And(y.e == 0, x.e > 0), t == 0)]
        if not _maybe_negzero(a[0]): S.cons.append(z3.Implies(y.e >= 0, t >= 0))
        S.cons += [z3.Implies(t >= 0, z3.And(s <= t, c >= 1 - t)), z3.Implies(t <= 0, z3.And(s >= t, c >= 1 + t))]
        hm = math.hypot(S.mag(a[0]), S.mag(a[1])) * 1.0001
        if math.isfinite(hm): S.cons += [z3.Implies(y.e > 0, t * RV(hm) >= y.e), z3.Implies(y.e < 0, t * RV(hm) <= y.e)]
        P2 = RV(PI / 2)
        S.cons += [z3.Implies(x.e >= 0, z3.And(t <= P2 + RV(1e-15), t >= -P2 - RV(1e-15))), z3.Implies(x.e < 0, z3.Or(t >= P2 - RV(1e-15), t <= -P2 + RV(1e-15)))]
        lo, hi, _ = S.iv.get(n)
        if lo > -3.14 or hi < 3.14: S.cons += [t >= RV(lo - abs(lo) * 1e-5), t <= RV(hi + abs(hi) * 1e-5)]
        S.calls.append(dict(k='at', t=t, sin=s, cos=c, h=h, x=x.e, y=y.e, hm=math.hypot(S.mag(a[0]), S.mag(a[1])) * 1.0001))
        if not (x.R == x.A == y.R == y.A == 0):
            if x.A == 0 and y.A == 0:
                return Info(t, 0.0, (x.R + y.R) * SL * 1.01 + LE * 4)
            raise NotReal('atan2 of absolutely perturbed arguments')
        return Info(t, LE, 0.0)
    x = S.get(a[0])
    lo, hi, nan = S.iv.get(n)
    if nan or not (math.isfinite(lo) and math.isfinite(hi)): raise NotReal(f + ' unbounded')
    t = S.fresh(f)
    S.cons += [t >= RV(lo - abs(lo) * 1e-6 - 1e-9), t <= RV(hi + abs(hi) * 1e-6 + 1e-9)]
    for r in S.calls:
        if r.get('k') == f:
            S.cons += [z3.Implies(x.e <= r['xe'], t <= r['t']), z3.Implies(x.e >= r['xe'], t >= r['t'])]
    S.calls.append(dict(k=f, t=t, xe=x.e))
    if x.R == 0 and x.A == 0: return Info(t, LE, eta)
    blo, bhi = S.bounds(a[0])
    ab = S.absE(a[0])
    if f in ('exp',): A = math.exp(bhi + ab) * ab
    elif f == 'log' and blo - ab > 0: A = ab / (blo - ab)
    elif f == 'log10' and blo - ab > 0: A = ab / (blo - ab) / 2.3
    elif f == 'atan': A = ab
    else: raise NotReal(f + ' derivative')
    return Info(t, LE, A * SL + eta)
