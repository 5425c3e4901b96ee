"""Hash-consed bit-vector / IEEE-754 terms.

Every scalar of the program is a term of some bit width.  Floating-point
values are *bit patterns*: an f32 is a 32-bit term, and fadd/fmul/... are
term constructors over 32-bit terms.  Booleans are 1-bit terms.
The two back ends (smt.py: bit-precise, real.py: ideal real arithmetic)
give these constructors their meaning; this module only performs
simplifications that are valid bit-for-bit.
"""
import struct, math
from fractions import Fraction

class T:
    __slots__ = ('op', 'w', 'args', 'data', 'id', '__weakref__')
    def __repr__(self):
        return show(self)

_tab = {}
_n = [0]

def mk(op, w, args=(), data=None):
    key = (op, w, tuple(a.id for a in args), data)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op; t.w = w; t.args = tuple(args); t.data = data
        t.id = _n[0]; _n[0] += 1
        _tab[key] = t
    return t

def reset():
    pass

def const(v, w=32):
    return mk('const', w, (), v & ((1 << w) - 1))

def var(name, w=32):
    return mk('var', w, (), name)

_fresh = [0]
def fresh(prefix, w=32):
    _fresh[0] += 1
    return mk('var', w, (), '%s!%d' % (prefix, _fresh[0]))

TRUE = const(1, 1)
FALSE = const(0, 1)

def isc(t):
    return t.op == 'const'

def show(t, depth=4):
    if t.op == 'const':
        if t.w == 32:
            f = b2f(t.data)
            return '%#x(%g)' % (t.data, f)
        return '%d:%d' % (t.data, t.w)
    if t.op == 'var':
        return str(t.data)
    if depth == 0:
        return '...'
    d = '' if t.data is None else '[%s]' % (t.data,)
    return '%s%s(%s)' % (t.op, d, ', '.join(show(a, depth - 1) for a in t.args))

# ---------------------------------------------------------------- floats
def b2f(b):
    return struct.unpack('<f', struct.pack('<I', b))[0]

def f2b(x):
    """round a Python float (double) to f32 bits"""
    if math.isnan(x):
        return 0x7fc00000
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000

def b2d(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]

def d2b(x):
    if math.isnan(x):
        return 0x7ff8000000000000
    return struct.unpack('<Q', struct.pack('<d', x))[0]

def fconst(x):
    return const(f2b(x), 32)

def is_nan_bits(b):
    return (b & 0x7fffffff) > 0x7f800000

def frac_to_f32(fr, neg_zero=False):
    """correctly rounded (RNE) Fraction -> f32 bits"""
    if fr == 0:
        return 0x80000000 if neg_zero else 0
    s = 0
    if fr < 0:
        s = 0x80000000; fr = -fr
    e = fr.numerator.bit_length() - fr.denominator.bit_length()
    if Fraction(2) ** e > fr:
        e -= 1
    q = max(e, -126) - 23
    m = fr / (Fraction(2) ** q)
    n = m.numerator // m.denominator
    r = m - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and (n & 1)):
        n += 1
    if n >= 1 << 24:
        n >>= 1; q += 1
    if n < (1 << 23):
        return s | n
    ex = q + 23 + 127
    if ex >= 255:
        return s | 0x7f800000
    return s | (ex << 23) | (n & 0x7fffff)

QNAN = 0x7fc00000

def _fold_f32(op, a, b):
    x, y = b2f(a), b2f(b)
    if op == 'fadd': r = x + y
    elif op == 'fsub': r = x - y
    elif op == 'fmul': r = x * y
    elif op == 'fdiv':
        if y == 0:
            if x == 0 or math.isnan(x): r = math.nan
            else:
                r = math.copysign(math.inf, x) * math.copysign(1, y)
        elif math.isinf(x) and math.isinf(y): r = math.nan
        else: r = x / y
    if math.isnan(r):
        # x86: first NaN operand quieted, else default NaN (sign irrelevant here)
        if math.isnan(x): return a | 0x00400000
        if math.isnan(y): return b | 0x00400000
        return 0xffc00000
    return f2b(r)

def f2(op, a, b):
    """binary f32/f64 arithmetic"""
    if isc(a) and isc(b):
        if a.w == 32:
            return const(_fold_f32(op, a.data, b.data), 32)
        x, y = b2d(a.data), b2d(b.data)
        if op == 'fadd': return const(d2b(x + y), 64)
        if op == 'fsub': return const(d2b(x - y), 64)
        if op == 'fmul': return const(d2b(x * y), 64)
        if op == 'fdiv' and y != 0: return const(d2b(x / y), 64)
    if op in ('fadd', 'fmul') and a.id > b.id:
        a, b = b, a
    return mk(op, a.w, (a, b))

def fadd(a, b): return f2('fadd', a, b)
def fsub(a, b): return f2('fsub', a, b)
def fmul(a, b): return f2('fmul', a, b)
def fdiv(a, b): return f2('fdiv', a, b)

def f1(op, a):
    if isc(a):
        r = eval_f1(op, a.data, a.w)
        if r is not None:
            return const(r, a.w)
    return mk(op, a.w, (a,))

def eval_f1(op, b, w):
    if w != 32: return None
    x = b2f(b)
    if op == 'fsqrt':
        if math.isnan(x): return b | 0x00400000
        if x < 0: return 0xffc00000
        return f2b(math.sqrt(x))
    if op in ('ffloor', 'fceil', 'ftrunc', 'frne'):
        if math.isnan(x): return b | 0x00400000
        if math.isinf(x): return b
        if op == 'ffloor': r = math.floor(x)
        elif op == 'fceil': r = math.ceil(x)
        elif op == 'ftrunc': r = math.trunc(x)
        else: r = round(x)
        rb = f2b(float(r))
        return (rb & 0x7fffffff) | (b & 0x80000000) if r == 0 else rb
    return None

def fsqrt(a): return f1('fsqrt', a)

def fma(a, b, c):
    if isc(a) and isc(b) and isc(c):
        x, y, z = b2f(a.data), b2f(b.data), b2f(c.data)
        if all(math.isfinite(v) for v in (x, y, z)):
            r = Fraction(x) * Fraction(y) + Fraction(z)
            if r != 0:
                return const(frac_to_f32(r), 32)
    if a.id > b.id:
        a, b = b, a
    return mk('fma', a.w, (a, b, c))

def fneg(a):
    return bxor(a, const(1 << (a.w - 1), a.w))

def fabs_(a):
    return band(a, const((1 << (a.w - 1)) - 1, a.w))

# comparison: feq, flt, fle (all false on NaN), funo (unordered)
def fcmp(op, a, b):
    if isc(a) and isc(b):
        x, y = (b2f(a.data), b2f(b.data)) if a.w == 32 else (b2d(a.data), b2d(b.data))
        if op == 'feq': r = x == y
        elif op == 'flt': r = x < y
        elif op == 'fle': r = x <= y
        elif op == 'funo': r = x != x or y != y
        return TRUE if r else FALSE
    if op in ('feq', 'funo') and a.id > b.id:
        a, b = b, a
    if op == 'funo' and isc(a) and not is_nan_bits(a.data) and a.w == 32:
        if a is not b:
            return mk('funo', 1, (b, b))
    if op == 'funo' and isc(b) and b.w == 32 and not is_nan_bits(b.data):
        return mk('funo', 1, (a, a))
    return mk(op, 1, (a, b))

def feq(a, b): return fcmp('feq', a, b)
def flt(a, b): return fcmp('flt', a, b)
def fle(a, b): return fcmp('fle', a, b)
def fgt(a, b): return fcmp('flt', b, a)
def fge(a, b): return fcmp('fle', b, a)
def funo(a, b): return fcmp('funo', a, b)

# uninterpreted application (libm functions, estimates, ghost reals)
def app(name, w, *args):
    return mk('app', w, args, name)

def sitofp(a, w=32):
    if isc(a):
        v = a.data - (1 << a.w) if a.data >> (a.w - 1) else a.data
        return const(frac_to_f32(Fraction(v)), 32) if w == 32 else const(d2b(float(v)), 64)
    return mk('sitofp', w, (a,))

def uitofp(a, w=32):
    if isc(a):
        return const(frac_to_f32(Fraction(a.data)), 32) if w == 32 else const(d2b(float(a.data)), 64)
    return mk('uitofp', w, (a,))

# ---------------------------------------------------------------- bit vectors
def ones(w): return (1 << w) - 1

def bnot(a):
    return bxor(a, const(ones(a.w), a.w))

def band(a, b):
    if isc(a) and isc(b): return const(a.data & b.data, a.w)
    if isc(a): a, b = b, a
    if isc(b):
        if b.data == 0: return b
        if b.data == ones(b.w): return a
    if a is b: return a
    if a.op == 'concat' and (b.op == 'concat' or isc(b)):
        r = _split2(a, b, band)
        if r is not None: return r
    if a.op == 'band' and isc(b) and isc(a.args[1]):
        return band(a.args[0], band(a.args[1], b))
    if a.w == 1:
        if a is bnot(b): return FALSE
        # absorption  a & (a | c) = a
        if b.op == 'bor' and a in b.args: return a
        if a.op == 'bor' and b in a.args: return b
        if b.op == 'band' and a in b.args: return b
        if a.op == 'band' and b in a.args: return a
    # mask distribution: sext(c) & x = ite(c, x, 0)
    if a.op == 'sext' and a.args[0].w == 1: return ite(a.args[0], b, const(0, b.w))
    if b.op == 'sext' and b.args[0].w == 1: return ite(b.args[0], a, const(0, a.w))
    if isc(b) and a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], band(a.args[1], b), band(a.args[2], b))
    if a.w > 1:
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and isc(x.args[1]) and isc(x.args[2]) and \
               x.args[1].data in (0, ones(a.w)) and x.args[2].data in (0, ones(a.w)):
                return ite(x.args[0], band(x.args[1], y), band(x.args[2], y))
    if not isc(b) and a.id > b.id: a, b = b, a
    return mk('band', a.w, (a, b))

def bor(a, b):
    if isc(a) and isc(b): return const(a.data | b.data, a.w)
    if isc(a): a, b = b, a
    if isc(b):
        if b.data == 0: return a
        if b.data == ones(b.w): return b
    if a is b: return a
    if a.op == 'concat' and (b.op == 'concat' or isc(b)):
        r = _split2(a, b, bor)
        if r is not None: return r
    if a.w == 1:
        if a is bnot(b): return TRUE
        if b.op == 'band' and a in b.args: return a
        if a.op == 'band' and b in a.args: return b
        if b.op == 'bor' and a in b.args: return b
        if a.op == 'bor' and b in a.args: return a
    if a.op == 'sext' and a.args[0].w == 1: return ite(a.args[0], const(ones(b.w), b.w), b)
    if b.op == 'sext' and b.args[0].w == 1: return ite(b.args[0], const(ones(a.w), a.w), a)
    # (c ? x : 0) | (c ? 0 : y) = c ? x : y
    if a.op == 'ite' and b.op == 'ite' and a.w > 1:
        ca, cb = a.args[0], b.args[0]
        if ca is cb:
            return ite(ca, bor(a.args[1], b.args[1]), bor(a.args[2], b.args[2]))
        if ca is bnot(cb):
            return ite(ca, bor(a.args[1], b.args[2]), bor(a.args[2], b.args[1]))
    if a.w > 1:
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite' and isc(x.args[1]) and isc(x.args[2]) and \
               x.args[1].data in (0, ones(a.w)) and x.args[2].data in (0, ones(a.w)):
                return ite(x.args[0], bor(x.args[1], y), bor(x.args[2], y))
    if not isc(b) and a.id > b.id: a, b = b, a
    return mk('bor', a.w, (a, b))

def bxor(a, b):
    if isc(a) and isc(b): return const(a.data ^ b.data, a.w)
    if isc(a): a, b = b, a
    if isc(b) and b.data == 0: return a
    if a is b: return const(0, a.w)
    if a.op == 'concat' and (b.op == 'concat' or isc(b)):
        r = _split2(a, b, bxor)
        if r is not None: return r
    if a.op == 'bxor' and isc(b) and isc(a.args[1]):
        return bxor(a.args[0], bxor(a.args[1], b))
    if isc(b) and a.op == 'sext' and b.data == ones(b.w):
        return mk_sext(bnot(a.args[0]), a.w)
    if isc(b) and a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], bxor(a.args[1], b), bxor(a.args[2], b))
    if not isc(b) and a.id > b.id: a, b = b, a
    return mk('bxor', a.w, (a, b))

def _split2(a, b, f):
    """push a bitwise op through aligned concats"""
    pa = a.args
    widths = [p.w for p in pa]
    if b.op == 'concat':
        if [p.w for p in b.args] != widths:
            # try to split by extraction on the union of cut points
            cuts = set(); 
            for t in (a, b):
                pos = 0
                for p in t.args:
                    pos += p.w; cuts.add(pos)
            cuts = sorted(cuts)
            res = []; lo = 0
            for c in cuts:
                res.append(f(extract(a, lo, c - lo), extract(b, lo, c - lo))); lo = c
            return concat(res)
        pb = b.args
    else:
        pb = []; pos = 0
        for p in pa:
            pb.append(const(b.data >> pos, p.w)); pos += p.w
    return concat([f(x, y) for x, y in zip(pa, pb)])

def concat(parts):
    """parts: least significant first"""
    flat = []
    for p in parts:
        if p.op == 'concat': flat.extend(p.args)
        else: flat.append(p)
    out = []
    for p in flat:
        if out:
            q = out[-1]
            if isc(p) and isc(q):
                out[-1] = const(q.data | (p.data << q.w), p.w + q.w); continue
            if p.op == 'extract' and q.op == 'extract' and p.args[0] is q.args[0] and q.data + q.w == p.data:
                out[-1] = extract(p.args[0], q.data, p.w + q.w); continue
            if p.op == 'ite' and q.op == 'ite' and p.w >= 8 and q.w >= 8 and p.args[0] is q.args[0]:
                out[-1] = ite(p.args[0], concat([q.args[1], p.args[1]]), concat([q.args[2], p.args[2]])); continue
        out.append(p)
    if len(out) == 1: return out[0]
    return mk('concat', sum(p.w for p in out), out)

def extract(a, lo, w):
    if lo == 0 and w == a.w: return a
    if isc(a): return const(a.data >> lo, w)
    if a.op == 'concat':
        pos = 0; parts = []
        for p in a.args:
            s = max(lo, pos); e = min(lo + w, pos + p.w)
            if s < e: parts.append(extract(p, s - pos, e - s))
            pos += p.w
        return concat(parts)
    if a.op == 'extract':
        return extract(a.args[0], a.data + lo, w)
    if a.op in ('band', 'bor', 'bxor'):
        f = {'band': band, 'bor': bor, 'bxor': bxor}[a.op]
        return f(extract(a.args[0], lo, w), extract(a.args[1], lo, w))
    if a.op == 'ite':
        return ite(a.args[0], extract(a.args[1], lo, w), extract(a.args[2], lo, w))
    if a.op == 'zext':
        x = a.args[0]
        if lo >= x.w: return const(0, w)
        if lo + w <= x.w: return extract(x, lo, w)
        return mk_zext(extract(x, lo, x.w - lo), w)
    if a.op == 'sext':
        x = a.args[0]
        if x.w == 1: return mk_sext(x, w)
        if lo + w <= x.w: return extract(x, lo, w)
        if lo >= x.w: return mk_sext(extract(x, x.w - 1, 1), w)
    if lo == 0 and a.op in ('add', 'sub', 'mul'):
        return arith(a.op, extract(a.args[0], 0, w), extract(a.args[1], 0, w))
    return mk('extract', w, (a,), lo)

def mk_zext(a, w):
    if a.w == w: return a
    if isc(a): return const(a.data, w)
    if a.op == 'zext': a = a.args[0]
    return mk('zext', w, (a,))

def mk_sext(a, w):
    if a.w == w: return a
    if isc(a):
        v = a.data - (1 << a.w) if a.data >> (a.w - 1) else a.data
        return const(v, w)
    if a.op == 'sext': a = a.args[0]
    if a.w == 1:
        return ite(a, const(ones(w), w), const(0, w))
    if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]):
        return ite(a.args[0], mk_sext(a.args[1], w), mk_sext(a.args[2], w))
    return mk('sext', w, (a,))

def ite(c, a, b):
    if c.op == 'const': return a if c.data else b
    if a is b: return a
    if c.op == 'bxor' and c.w == 1 and isc(c.args[1]):
        return ite(c.args[0], b, a)
    if a.w == 1:
        if isc(a): return bor(c, b) if a.data else band(bnot(c), b)
        if isc(b): return bor(bnot(c), a) if b.data else band(c, a)
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    return mk('ite', a.w, (c, a, b))

def arith(op, a, b):
    w = a.w; M = ones(w)
    if isc(a) and isc(b):
        x, y = a.data, b.data
        sx = x - (1 << w) if x >> (w - 1) else x
        sy = y - (1 << w) if y >> (w - 1) else y
        if op == 'add': return const(x + y, w)
        if op == 'sub': return const(x - y, w)
        if op == 'mul': return const(x * y, w)
        if op == 'udiv' and y: return const(x // y, w)
        if op == 'urem' and y: return const(x % y, w)
        if op == 'sdiv' and y: return const(int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1), w)
        if op == 'srem' and y: return const((abs(sx) % abs(sy)) * (1 if sx >= 0 else -1), w)
        if op == 'shl': return const(x << y, w) if y < w else const(0, w)
        if op == 'lshr': return const(x >> y, w) if y < w else const(0, w)
        if op == 'ashr': return const(sx >> min(y, w - 1), w)
    if op in ('add', 'mul'):
        if isc(a): a, b = b, a
    if isc(b):
        if b.data == 0 and op in ('add', 'sub', 'shl', 'lshr', 'ashr'): return a
        if op == 'mul':
            if b.data == 0: return b
            if b.data == 1: return a
        if op == 'sub': return arith('add', a, const(-b.data, w))
        if op == 'add' and a.op == 'add' and isc(a.args[1]):
            return arith('add', a.args[0], arith('add', a.args[1], b))
        if op == 'shl' and b.data < w:
            return concat([const(0, b.data), extract(a, 0, w - b.data)])
        if op == 'lshr' and b.data < w:
            return concat([extract(a, b.data, w - b.data), const(0, b.data)])
        if op == 'ashr' and b.data < w and a.op == 'ite':
            return ite(a.args[0], arith(op, a.args[1], b), arith(op, a.args[2], b))
        if op in ('add', 'mul') and a.op == 'ite' and (isc(a.args[1]) or isc(a.args[2])):
            return ite(a.args[0], arith(op, a.args[1], b), arith(op, a.args[2], b))
    if op == 'sub' and a is b: return const(0, w)
    if op in ('add', 'mul') and not isc(b) and a.id > b.id: a, b = b, a
    return mk(op, w, (a, b))

def icmp(pred, a, b):
    """pred in eq, ult, ule, slt, sle"""
    w = a.w
    if isc(a) and isc(b):
        x, y = a.data, b.data
        if pred[0] == 's':
            x = x - (1 << w) if x >> (w - 1) else x
            y = y - (1 << w) if y >> (w - 1) else y
        r = {'eq': x == y, 'ult': x < y, 'ule': x <= y, 'slt': x < y, 'sle': x <= y}[pred]
        return TRUE if r else FALSE
    if a is b:
        return TRUE if pred in ('eq', 'ule', 'sle') else FALSE
    if isc(a) and pred == 'eq': a, b = b, a
    if pred == 'eq' and w == 1:
        if isc(b): return a if b.data else bnot(a)
        return bnot(bxor(a, b))
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isc(y) and x.op == 'ite' and (isc(x.args[1]) or isc(x.args[2])):
            l = icmp(pred, y, x.args[1]) if sw else icmp(pred, x.args[1], y)
            r = icmp(pred, y, x.args[2]) if sw else icmp(pred, x.args[2], y)
            return ite(x.args[0], l, r)
    if pred == 'eq' and isc(b):
        if a.op == 'zext':
            x = a.args[0]
            if b.data >> x.w: return FALSE
            return icmp('eq', x, const(b.data, x.w))
        if a.op == 'concat':
            r = TRUE; pos = 0
            for p in a.args:
                r = band(r, icmp('eq', p, const(b.data >> pos, p.w))); pos += p.w
            return r
        if a.op == 'add' and isc(a.args[1]):
            return icmp('eq', a.args[0], const(b.data - a.args[1].data, w))
        if a.op == 'mul' and isc(a.args[1]) and a.args[0].op == 'zext':
            k = a.args[1].data; x = a.args[0].args[0]
            if k and (k << x.w) <= (1 << w):
                if b.data % k: return FALSE
                return icmp('eq', a.args[0], const(b.data // k, w))
    if pred == 'ult' and isc(b) and b.data == 0: return FALSE
    if pred == 'ule' and isc(b) and b.data == ones(w): return TRUE
    if pred == 'slt' and isc(b) and b.data == 0: return extract(a, w - 1, 1)
    if pred == 'sle' and isc(a) and a.data == ones(w) and False: pass
    if pred == 'ult' and isc(b) and a.op == 'zext' and b.data > ones(a.args[0].w): return TRUE
    if pred == 'eq' and not isc(b) and a.id > b.id: a, b = b, a
    return mk(pred, 1, (a, b))

def eq(a, b): return icmp('eq', a, b)
def ult(a, b): return icmp('ult', a, b)
def ule(a, b): return icmp('ule', a, b)
def slt(a, b): return icmp('slt', a, b)
def sle(a, b): return icmp('sle', a, b)

def conj(ts):
    r = TRUE
    for t in ts: r = band(r, t)
    return r

def disj(ts):
    r = FALSE
    for t in ts: r = bor(r, t)
    return r

def implies(a, b): return bor(bnot(a), b)

# ---------------------------------------------------------------- traversal
def subterms(roots):
    seen = set(); out = []
    st = [(r, False) for r in roots]
    while st:
        t, done = st.pop()
        if done:
            out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, True))
        for a in t.args:
            if a.id not in seen: st.append((a, False))
    return out

def rebuild(t, args):
    """re-apply smart constructors to new args"""
    op = t.op
    if op in ('band', 'bor', 'bxor'):
        return {'band': band, 'bor': bor, 'bxor': bxor}[op](*args)
    if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
        return arith(op, *args)
    if op in ('eq', 'ult', 'ule', 'slt', 'sle'): return icmp(op, *args)
    if op == 'ite': return ite(*args)
    if op == 'extract': return extract(args[0], t.data, t.w)
    if op == 'concat': return concat(list(args))
    if op == 'zext': return mk_zext(args[0], t.w)
    if op == 'sext': return mk_sext(args[0], t.w)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'): return f2(op, *args)
    if op in ('feq', 'flt', 'fle', 'funo'): return fcmp(op, *args)
    if op == 'fma': return fma(*args)
    if op in ('fsqrt', 'ffloor', 'fceil', 'ftrunc', 'frne'): return f1(op, args[0])
    if op == 'sitofp': return sitofp(args[0], t.w)
    if op == 'uitofp': return uitofp(args[0], t.w)
    return mk(op, t.w, args, t.data)

def subst(roots, m):
    """m: dict term.id -> term.  Returns the substituted roots."""
    memo = dict(m)
    for t in subterms(roots):
        if t.id in memo: continue
        if not t.args:
            memo[t.id] = t; continue
        na = [memo[a.id] for a in t.args]
        if all(x is y for x, y in zip(na, t.args)): memo[t.id] = t
        else: memo[t.id] = rebuild(t, na)
    return [memo[r.id] for r in roots]

# ---------------------------------------------------------------- more conversions
def fptosi(a, w=32):
    """truncation toward zero; meaningful only when the value is in range"""
    if isc(a) and a.w == 32:
        x = b2f(a.data)
        if x != x or not (-2.0 ** (w - 1) <= x < 2.0 ** (w - 1)): return const(1 << (w - 1), w)
        return const(int(x), w)
    return mk('fptosi', w, (a,))

def fptoui(a, w=32):
    if isc(a) and a.w == 32:
        x = b2f(a.data)
        if x != x or not (-1 < x < 2.0 ** w): return const(0, w)
        return const(int(x), w)
    return mk('fptoui', w, (a,))

def h2f(a):
    if isc(a):
        b = a.data; s = (b & 0x8000) << 16; e = (b >> 10) & 31; m = b & 0x3ff
        if e == 31: return const(s | 0x7f800000 | (m << 13) | (0x400000 if m else 0), 32)
        if e == 0: return const(s | frac_to_f32(Fraction(m, 1 << 24)), 32)
        return const(s | ((e + 112) << 23) | (m << 13), 32)
    return mk('h2f', 32, (a,))

def f2h(a, rm='rne'):
    if isc(a) and rm == 'rne':
        return const(f2h_bits(a.data), 16)
    return mk('f2h', 16, (a,), rm)

def f2h_bits(b):
    s = (b >> 16) & 0x8000; x = b & 0x7fffffff
    if x > 0x7f800000: return s | 0x7e00 | ((x >> 13) & 0x3ff)
    if x == 0x7f800000: return s | 0x7c00
    fr = Fraction(b2f(x))
    if fr == 0: return s
    e = max((x >> 23) - 127, -14)
    q = Fraction(2) ** (e - 10)
    m = fr / q; n = m.numerator // m.denominator; r = m - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1): n += 1
    # n in [0, 2048]
    if n >= 2048: n >>= 1; e += 1
    if n < 1024: return s | n
    if e > 15: return s | 0x7c00
    return s | ((e + 15) << 10) | (n & 0x3ff)

def fpext(a, w):
    if isc(a): return const(d2b(b2f(a.data)), 64)
    return mk('fpext', w, (a,))

def fptrunc(a, w):
    if isc(a) and a.w == 64 and w == 32: return const(f2b(b2d(a.data)), 32)
    return mk('fptrunc', w, (a,))

_rebuild0 = rebuild
def rebuild(t, args):
    op = t.op
    if op == 'fptosi': return fptosi(args[0], t.w)
    if op == 'fptoui': return fptoui(args[0], t.w)
    if op == 'h2f': return h2f(args[0])
    if op == 'f2h': return f2h(args[0], t.data)
    if op == 'fpext': return fpext(args[0], t.w)
    if op == 'fptrunc': return fptrunc(args[0], t.w)
    return _rebuild0(t, args)
