"""Hash-consed expression graph for the symbolic executor: IEEE floats, bit-vectors, booleans (i1)."""
import ctypes, math, struct
import numpy as np
np.seterr(all='ignore')
_f32 = np.float32

class Node:
    __slots__ = ('op', 'ty', 'args', 'attr', 'id')
    def __repr__(self):
        return show(self)

_table = {}
_nodes = []

def is_node(x):
    return x.__class__ is Node

def _ckey(x):
    if x.__class__ is Node:
        return x.id
    if x.__class__ is float:
        return ('f', struct.pack('d', x))
    return ('i', x)

def raw(op, ty, args, attr=None):
    key = (op, ty, attr) + tuple(_ckey(a) for a in args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op; n.ty = ty; n.args = tuple(args); n.attr = attr; n.id = len(_nodes)
        _nodes.append(n)
        _table[key] = n
    return n

def show(x, depth=6):
    if not is_node(x):
        return repr(x)
    if x.op == 'var':
        return x.attr[0]
    if depth == 0:
        return '..'
    return '%s%s(%s)' % (x.op, '' if x.attr is None else '[%s]' % (x.attr,), ', '.join(show(a, depth - 1) for a in x.args))

# ---------------------------------------------------------------- concrete float arithmetic
libm = ctypes.CDLL('libm.so.6')
def _lm(name, ct, n):
    f = getattr(libm, name)
    f.restype = ct
    f.argtypes = [ct] * n
    return f
LIBM = {}
for base, n in (('pow', 2), ('sin', 1), ('cos', 1), ('tan', 1), ('atan2', 2), ('atan', 1), ('asin', 1), ('acos', 1), ('exp', 1),
                ('log', 1), ('log10', 1), ('fmod', 2), ('cbrt', 1), ('exp2', 1), ('log2', 1), ('hypot', 2), ('fma', 3),
                ('remainder', 2), ('sinh', 1), ('cosh', 1), ('tanh', 1), ('fdim', 2), ('expm1', 1), ('log1p', 1), ('rint', 1), ('nearbyint', 1)):
    LIBM[base + 'f'] = ('f32', base, n, _lm(base + 'f', ctypes.c_float, n))
    LIBM[base] = ('f64', base, n, _lm(base, ctypes.c_double, n))

def r32(x):
    return float(_f32(x))

def rnd(ty, x):
    return float(_f32(x)) if ty == 'f32' else x

def fbits(ty, x):
    if ty == 'f32':
        return int(np.array([x], dtype=np.float32).view(np.uint32)[0])
    return struct.unpack('<Q', struct.pack('<d', x))[0]

def bitsf(ty, b):
    if ty == 'f32':
        return float(np.array([b], dtype=np.uint32).view(np.float32)[0])
    return struct.unpack('<d', struct.pack('<Q', b))[0]

def c_round(x):
    if x != x or math.isinf(x): return x
    r = math.floor(abs(x) + 0.5) if abs(x) < 2**52 else abs(x)
    # exact half handling: floor(a+0.5) may misround for 0.49999999999999994
    a = abs(x); f = math.floor(a); r = f + 1.0 if a - f >= 0.5 else float(f)
    return math.copysign(r, x)

def cfloat(op, ty, a):
    """concrete float op; a: list of floats"""
    if op == 'fadd': return rnd(ty, _dbl(a[0] + a[1]))
    if op == 'fsub': return rnd(ty, a[0] - a[1])
    if op == 'fmul': return rnd(ty, a[0] * a[1])
    if op == 'fdiv':
        with np.errstate(all='ignore'):
            return float(np.float64(a[0]) / np.float64(a[1])) if ty == 'f64' else float(_f32(a[0]) / _f32(a[1]))
    if op == 'fneg': return -a[0]
    if op == 'fabs': return abs(a[0])
    if op == 'fsqrt':
        if a[0] < 0: return math.nan
        return float(np.sqrt(_f32(a[0]))) if ty == 'f32' else float(np.sqrt(a[0]))
    if op == 'fmin':
        x, y = a
        if x != x: return y
        if y != y: return x
        return x if x <= y else y
    if op == 'fmax':
        x, y = a
        if x != x: return y
        if y != y: return x
        return x if x >= y else y
    if op == 'fround': return c_round(a[0])
    if op == 'froundeven':
        return float(np.rint(a[0]))
    if op == 'ffloor': return a[0] if (a[0] != a[0] or math.isinf(a[0])) else float(np.floor(a[0]))
    if op == 'fceil': return a[0] if (a[0] != a[0] or math.isinf(a[0])) else float(np.ceil(a[0]))
    if op == 'ftrunc': return a[0] if (a[0] != a[0] or math.isinf(a[0])) else float(np.trunc(a[0]))
    if op == 'fcopysign': return math.copysign(a[0], a[1])
    raise KeyError(op)

def _dbl(x): return x

def fcmp_c(pred, a, b):
    un = (a != a) or (b != b)
    if pred == 'ord': return int(not un)
    if pred == 'uno': return int(un)
    if pred == 'true': return 1
    if pred == 'false': return 0
    if pred[0] == 'o':
        if un: return 0
    elif un: return 1
    p = pred[1:]
    return int(a == b if p == 'eq' else a != b if p == 'ne' else a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)

_SW = {'gt': 'lt', 'ge': 'le'}
_COMM = {'fadd', 'fmul', 'fmin', 'fmax'}

def width(ty):
    return {'f32': 32, 'f64': 64, 'ptr': 64}.get(ty) or int(ty[1:])

def mask(ty):
    return (1 << width(ty)) - 1

def signed(ty, x):
    w = width(ty)
    return x - (1 << w) if x >> (w - 1) else x

# ---------------------------------------------------------------- constructors
def var(name, ty, info=None):
    return raw('var', ty, (), (name, info))

def even(x):
    """one representative of x and -x (same magnitude bit for bit), for use inside functions of the magnitude"""
    if not is_node(x): return abs(x)
    if x.op == 'fneg': return even(x.args[0])
    if x.op == 'fsub':
        a, b = x.args
        return fop('fsub', x.ty, b, a) if not is_node(a) or (is_node(b) and b.id < a.id) else x
    if x.op in ('fmul', 'fdiv'):
        a, b = x.args; p, q = even(a), even(b)
        return x if p is a and (q is b or not is_node(b) and q == b) else fop(x.op, x.ty, p, q)
    return x

def never_negative_zero(x):
    if x.op == 'fadd': return not is_node(x.args[1]) and fbits('f64', x.args[1]) != 1 << 63 or never_negative_zero(x.args[0])
    return x.op == 'fabs' or x.op == 'fmul' and x.args[0] is x.args[1]

def fop(op, ty, *a):
    if not any(is_node(x) for x in a):
        return cfloat(op, ty, a)
    if op == 'fmul' and a[0] is a[1]: a = (even(a[0]),) * 2
    if op == 'fabs': a = (even(a[0]),)
    if op in _COMM:
        x, y = a
        if (not is_node(x)) or (is_node(y) and y.id < x.id):
            a = (y, x)           # node first, constants last
        x, y = a
        if op == 'fmul' and y == 1.0: return x
        if op == 'fmul' and y == -1.0: return fop('fneg', ty, x)
        if op == 'fadd' and not is_node(y) and y == 0.0 and (math.copysign(1, y) < 0 or never_negative_zero(x)): return x
        if op in ('fmin', 'fmax') and x is y: return x
    elif op == 'fsub':
        if not is_node(a[1]) and a[1] == 0.0 and (math.copysign(1, a[1]) > 0 or never_negative_zero(a[0])): return a[0]
    elif op == 'fdiv':
        if not is_node(a[1]) and a[1] == 1.0: return a[0]
    elif op == 'fneg':
        if a[0].op == 'fneg': return a[0].args[0]
    elif op == 'fabs':
        if a[0].op in ('fabs', 'fsqrt'): return a[0]
        if a[0].op == 'fneg': return fop('fabs', ty, a[0].args[0])
    return raw(op, ty, a)

def fcall(name, *a):
    ty, base, n, f = LIBM[name]
    if not any(is_node(x) for x in a):
        return float(f(*a))
    if base == 'pow' and not is_node(a[1]) and a[1] in (2.0, 4.0): a = (even(a[0]), a[1])
    return raw('call', ty, a, base)

def fcmp(pred, a, b):
    if pred == 'true': return 1
    if pred == 'false': return 0
    na, nb = is_node(a), is_node(b)
    if not na and not nb:
        return fcmp_c(pred, a, b)
    if (not na and a != a) or (not nb and b != b):
        return 1 if pred[0] == 'u' else 0
    if pred not in ('ord', 'uno') and pred[1:] in _SW:
        pred = pred[0] + _SW[pred[1:]]
        a, b = b, a
        na, nb = nb, na
    # canonical: positive ordered predicates plus 'not'
    if pred == 'uno': return bnot(fcmp('ord', a, b))
    if pred == 'ord':
        if not na: return raw('fcmp', 'i1', (b, b), 'ord')
        if not nb: return raw('fcmp', 'i1', (a, a), 'ord')
        if a.id > b.id: a, b = b, a
        return raw('fcmp', 'i1', (a, b), 'ord')
    if pred == 'une': return bnot(fcmp('oeq', a, b))
    if pred == 'ult': return bnot(fcmp('ole', b, a))
    if pred == 'ule': return bnot(fcmp('olt', b, a))
    if pred == 'ueq': return bnot(fcmp('one', a, b))
    if pred == 'one': return band(fcmp('ord', a, b), bnot(fcmp('oeq', a, b)))
    if pred == 'oeq' and na and nb and a.id > b.id: a, b = b, a
    if pred == 'oeq' and not na: a, b = b, a
    if a is b and pred == 'olt': return 0
    if a is b and na and pred in ('oeq', 'ole'):
        return raw('fcmp', 'i1', (a, a), 'ord')
    return raw('fcmp', 'i1', (a, b), pred)

def bnot(c):
    if not is_node(c): return 1 - c
    if c.op == 'not': return c.args[0]
    return raw('not', 'i1', (c,))

def band(a, b):
    if not is_node(a): return b if a else 0
    if not is_node(b): return a if b else 0
    if a is b: return a
    if a.op == 'not' and a.args[0] is b or b.op == 'not' and b.args[0] is a: return 0
    if a.id > b.id: a, b = b, a
    return raw('band', 'i1', (a, b))

def bor(a, b):
    if not is_node(a): return 1 if a else b
    if not is_node(b): return 1 if b else a
    if a is b: return a
    return bnot(band(bnot(a), bnot(b)))

def select(c, a, b, ty):
    if not is_node(c): return a if c else b
    if a is b or (not is_node(a) and not is_node(b) and _ckey(a) == _ckey(b)): return a
    if c.op == 'not':
        c = c.args[0]; a, b = b, a
    if ty == 'i1':
        if not is_node(a): return bor(c, b) if a else band(bnot(c), b)
        if not is_node(b): return bor(bnot(c), a) if b else band(c, a)
    if is_node(a) and a.op == 'select' and a.args[0] is c: a = a.args[1]
    if is_node(b) and b.op == 'select' and b.args[0] is c: b = b.args[2]
    return raw('select', ty, (c, a, b))

def iop(op, ty, a, b):
    m = mask(ty)
    na, nb = is_node(a), is_node(b)
    if not na and not nb:
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        w = width(ty)
        if op == 'shl': return (a << b) & m if b < w else 0
        if op == 'lshr': return a >> b if b < w else 0
        if op == 'ashr': return (signed(ty, a) >> min(b, w - 1)) & m
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        sa, sb = signed(ty, a), signed(ty, b)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0): q = -q
        if op == 'sdiv': return q & m
        if op == 'srem': return (sa - q * sb) & m
        raise KeyError(op)
    if ty == 'i1':
        if op == 'and': return band(a, b)
        if op == 'or': return bor(a, b)
        if op in ('xor', 'add', 'sub'):
            if not nb: return bnot(a) if b else a
            if not na: return bnot(b) if a else b
            return bor(band(a, bnot(b)), band(bnot(a), b))
    # select-of-constants lifting keeps table indices enumerable
    if na and not nb and _leafy(a): return select(a.args[0], iop(op, ty, a.args[1], b), iop(op, ty, a.args[2], b), ty)
    if nb and not na and _leafy(b): return select(b.args[0], iop(op, ty, a, b.args[1]), iop(op, ty, a, b.args[2]), ty)
    if op in ('add', 'mul', 'and', 'or', 'xor'):
        if not na or (nb and b.id < a.id): a, b = b, a; na, nb = nb, na
        if not nb:
            if b == 0:
                return 0 if op in ('mul', 'and') else a
            if op == 'mul' and b == 1: return a
            if op == 'and' and b == m: return a
            if op == 'or' and b == m: return m
            if op == 'add' and is_node(a) and a.op == 'add' and not is_node(a.args[1]):
                return iop('add', ty, a.args[0], (a.args[1] + b) & m)
    if op in ('sub', 'shl', 'lshr', 'ashr') and not nb and b == 0: return a
    if op == 'sub' and not nb: return iop('add', ty, a, (-b) & m)
    if op == 'sub' and a is b: return 0
    if op in ('udiv', 'sdiv') and not nb and b == 1: return a
    return raw(op, ty, (a, b))

def _leafy(n):
    if n.op != 'select': return False
    x, y = n.args[1], n.args[2]
    return (not is_node(x) or _leafy(x)) and (not is_node(y) or _leafy(y))

def icmp(pred, ty, a, b):
    na, nb = is_node(a), is_node(b)
    if not na and not nb:
        if pred == 'eq': return int(a == b)
        if pred == 'ne': return int(a != b)
        if pred[0] == 's': a, b = signed(ty, a), signed(ty, b)
        p = pred[1:]
        return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
    if pred == 'ne': return bnot(icmp('eq', ty, a, b))
    if ty == 'i1' and pred == 'eq':
        if not nb: return a if b else bnot(a)
        if not na: return b if a else bnot(b)
    if pred[1:] in ('gt', 'ge'):
        pred = pred[0] + {'gt': 'lt', 'ge': 'le'}[pred[1:]]
        a, b = b, a; na, nb = nb, na
    if na and a.op == 'select' and not nb and (_leafy(a)):
        return select(a.args[0], icmp(pred, ty, a.args[1], b), icmp(pred, ty, a.args[2], b), 'i1')
    if nb and b.op == 'select' and not na and (_leafy(b)):
        return select(b.args[0], icmp(pred, ty, a, b.args[1]), icmp(pred, ty, a, b.args[2]), 'i1')
    if pred == 'eq':
        if a is b: return 1
        if not na: a, b = b, a; na, nb = nb, na
        if not nb and a.op in ('zext',):
            if b > mask(a.args[0].ty): return 0
            return icmp('eq', a.args[0].ty, a.args[0], b)
        if na and nb and a.id > b.id: a, b = b, a
    if pred in ('ule', 'sle') : 
        if a is b: return 1
        return bnot(icmp(pred[0] + 'lt', ty, b, a))
    if pred in ('ult', 'slt') and a is b: return 0
    if pred == 'ult' and not nb and b == 0: return 0
    if pred == 'ult' and not nb and b == 1: return icmp('eq', ty, a, 0)
    if pred == 'ult' and not na and a == 0: return bnot(icmp('eq', ty, b, 0))
    return raw('icmp', 'i1', (a, b), (pred, ty))

def cast(op, fty, tty, a):
    if not is_node(a):
        if op in ('zext', 'ptrtoint', 'inttoptr'): return a & mask(tty)
        if op == 'trunc': return a & mask(tty)
        if op == 'sext': return signed(fty, a) & mask(tty)
        if op == 'sitofp': return rnd(tty, float(signed(fty, a)))
        if op == 'uitofp': return rnd(tty, float(a))
        if op in ('fptosi', 'fptoui'):
            if a != a or math.isinf(a): return 1 << (width(tty) - 1)
            t = int(a)
            w = width(tty)
            if op == 'fptosi' and not (-(1 << (w - 1)) <= t < (1 << (w - 1))):
                return 1 << (w - 1) if w in (32, 64) else (t & mask(tty))
            return t & mask(tty)
        if op == 'fpext': return a
        if op == 'fptrunc': return r32(a)
        if op == 'bitcast':
            if fty == tty: return a
            if fty[0] == 'f' and tty[0] != 'f': return fbits(fty, a)
            if fty[0] != 'f' and tty[0] == 'f': return bitsf(tty, a)
            return a
        raise KeyError(op)
    if fty == tty and op in ('bitcast', 'ptrtoint', 'inttoptr', 'zext', 'sext', 'trunc'): return a
    if {fty, tty} == {'i64', 'ptr'}: return a
    if op in ('zext', 'sext', 'trunc') and _leafy(a):
        return select(a.args[0], cast(op, fty, tty, a.args[1]), cast(op, fty, tty, a.args[2]), tty)
    if op == 'trunc' and a.op in ('zext', 'sext'):
        s = a.args[0]
        if s.ty == tty: return s
        if width(s.ty) < width(tty): return cast(a.op, s.ty, tty, s)
        return cast('trunc', s.ty, tty, s)
    if op == 'zext' and a.op == 'zext': return cast('zext', a.args[0].ty, tty, a.args[0])
    if op == 'zext' and a.ty == 'i1':
        return select(a, 1, 0, tty)
    if op == 'bitcast' and a.op == 'bitcast': return cast('bitcast', a.args[0].ty, tty, a.args[0])
    if op == 'uitofp' and a.ty == 'i1' or (op in ('sitofp', 'uitofp') and _leafy(a)):
        if a.ty == 'i1': return select(a, 1.0 if op == 'uitofp' else -1.0, 0.0, tty)
        return select(a.args[0], cast(op, fty, tty, a.args[1]), cast(op, fty, tty, a.args[2]), tty)
    return raw('cast', tty, (a,), (op, fty))

# ---------------------------------------------------------------- evaluation under an assignment
def evaluate(roots, env):
    """env: var name -> python value. Returns list of values, bit-exact."""
    memo = {}
    out = []
    for r in roots:
        out.append(_ev(r, env, memo))
    return out

def topo(roots):
    seen = set(); order = []
    st = [(r, False) for r in roots if is_node(r)]
    while st:
        n, done = st.pop()
        if done:
            order.append(n); continue
        if n.id in seen: continue
        seen.add(n.id)
        st.append((n, True))
        for a in n.args:
            if is_node(a) and a.id not in seen: st.append((a, False))
    return order

def _ev(r, env, memo):
    if not is_node(r): return r
    if r.id in memo: return memo[r.id]
    for n in topo([r]):
        if n.id in memo: continue
        a = [memo[x.id] if is_node(x) else x for x in n.args]
        memo[n.id] = eval_node(n, a, env)
    return memo[r.id]

def eval_node(n, a, env):
    op = n.op
    if op == 'var': return env[n.attr[0]]
    if op == 'call': return float(LIBM[n.attr + ('f' if n.ty == 'f32' else '')][3](*a))
    if op == 'fcmp': return fcmp_c(n.attr, *a)
    if op == 'not': return 1 - a[0]
    if op == 'band': return a[0] & a[1]
    if op == 'select': return a[1] if a[0] else a[2]
    if op == 'icmp': return icmp(n.attr[0], n.attr[1], *a)
    if op == 'cast': return cast(n.attr[0], n.attr[1], n.ty, a[0])
    if op[0] == 'f': return cfloat(op, n.ty, a)
    try:
        return iop(op, n.ty, *a)
    except ZeroDivisionError:
        return 0
