"""Numeric oracle: evaluates spec terms in double precision with a running forward error bound
for single-precision evaluation (any association order, K ulps per operation), tracks exactness
(values on a coarse dyadic grid are exact in every association order), and flags results whose
value is not determined at the given precision."""
import numpy as np
from . import term as T
from .evalnp import LIB

U = 2.0 ** -24

class N:
    __slots__ = ('v', 'e', 'm', 'g', 'u', 'sp')   # value, error, magnitude, grid exponent, undefined mask, non-finite constant chosen by the spec
    def __init__(s, v, e, m, g, u, sp=None): s.v = v; s.e = e; s.m = m; s.g = g; s.u = u; s.sp = sp
class B:
    __slots__ = ('v', 'a')
    def __init__(s, v, a): s.v = v; s.a = a

BIGNEG = -100000.0

def grid(bits):
    """exponent of the lowest set bit of a finite f32"""
    x = bits & 0x7fffffff
    ex = (x >> 23).astype(np.int64); man = (x & 0x7fffff).astype(np.int64)
    man = np.where(ex > 0, man | 0x800000, man); ex = np.maximum(ex, 1)
    low = man & -man
    tz = np.where(man > 0, np.log2(np.maximum(low, 1)), 0)
    return np.where(man > 0, ex - 150 + tz, 1000.0)

def from_bits(bits):
    v = bits.view(np.float32).astype(np.float64)
    bad = ~np.isfinite(v)
    v = np.where(bad, 0.0, v)
    return N(v, np.zeros_like(v), np.abs(v), grid(bits), bad, np.where(bad, bits, np.uint32(0)) if bad.any() else None)

def fin(v, e, m, g, u, k, extra):
    """finish an operation: add its own rounding error unless exact"""
    big = (np.abs(v) + e) > 1e37
    u = u | big | ~np.isfinite(v) | ~np.isfinite(e)
    return N(v, e, m, g, u)

class Oracle:
    def __init__(self, env, n, k=16.0):
        self.env = env; self.n = n; self.k = k * U; self.val = {}; self.out = set()
        self.tiny = 1e-43

    def ev(self, roots):
        old = np.seterr(all='ignore')
        try:
            for t in T.subterms(roots):
                if t.id not in self.val: self.val[t.id] = self.ev1(t, [self.val[a.id] for a in t.args])
            return [self.val[r.id] for r in roots]
        finally: np.seterr(**old)

    def num(self, x):
        if isinstance(x, N): return x
        if isinstance(x, np.ndarray): return from_bits(x)
        raise NotImplementedError('numeric view')
    def bl(self, x):
        if isinstance(x, B): return x
        if isinstance(x, np.ndarray): return B(x != 0, np.zeros(self.n, bool))
        raise NotImplementedError('bool view')
    def raw(self, x):
        if isinstance(x, np.ndarray): return x
        raise NotImplementedError('bit view of a computed real')

    def ev1(self, t, a):
        op, n = t.op, self.n
        if op == 'const': return np.full(n, t.data, dtype=np.uint32)
        if op == 'var': return self.env[t.data]
        if t.w == 1:
            if op in ('band', 'bor', 'bxor'):
                x, y = self.bl(a[0]), self.bl(a[1])
                if op == 'band': return B(x.v & y.v, (x.a & (y.v | y.a)) | (y.a & (x.v | x.a)))
                if op == 'bor': return B(x.v | y.v, (x.a & (~y.v | y.a)) | (y.a & (~x.v | x.a)))
                return B(x.v ^ y.v, x.a | y.a)
            if op in ('feq', 'flt', 'fle'):
                if isinstance(a[0], np.ndarray) and isinstance(a[1], np.ndarray):
                    x, y = a[0].view(np.float32), a[1].view(np.float32)
                    return B({'feq': x == y, 'flt': x < y, 'fle': x <= y}[op], np.zeros(n, bool))
                x, y = self.num(a[0]), self.num(a[1])
                d = x.v - y.v; amb = (np.abs(d) <= x.e + y.e) & ((x.e > 0) | (y.e > 0)) | x.u | y.u
                return B({'feq': d == 0, 'flt': d < 0, 'fle': d <= 0}[op], amb)
            if op == 'funo':
                if isinstance(a[0], np.ndarray) and isinstance(a[1], np.ndarray):
                    return B(np.isnan(a[0].view(np.float32)) | np.isnan(a[1].view(np.float32)), np.zeros(n, bool))
                x, y = self.num(a[0]), self.num(a[1]); return B(np.zeros(n, bool), x.u | y.u)
            if op == 'ite':
                c, x, y = self.bl(a[0]), self.bl(a[1]), self.bl(a[2])
                v = np.where(c.v, x.v, y.v); amb = np.where(c.v, x.a, y.a) | (c.a & ((x.v != y.v) | x.a | y.a))
                return B(v, amb)
            if op in ('eq', 'ult', 'ule', 'slt', 'sle'):
                if isinstance(a[0], B) or isinstance(a[1], B):
                    x, y = self.bl(a[0]), self.bl(a[1]); return B(x.v == y.v, x.a | y.a)
                if isinstance(a[0], N) or isinstance(a[1], N):
                    if op == 'eq':
                        x, y = self.num(a[0]), self.num(a[1]); d = x.v - y.v
                        return B(d == 0, (np.abs(d) <= x.e + y.e) & ((x.e > 0) | (y.e > 0)) | x.u | y.u)
                    raise NotImplementedError(op)
                x, y = a
                if op[0] == 's': x, y = x.view(np.int32), y.view(np.int32)
                return B({'eq': x == y, 'ult': x < y, 'ule': x <= y, 'slt': x < y, 'sle': x <= y}[op], np.zeros(n, bool))
            if op == 'extract':
                if isinstance(a[0], N) and t.data == 31:
                    x = a[0]; return B(x.v < 0, (np.abs(x.v) <= x.e) & (x.e > 0) | x.u)
                return B(((self.raw(a[0]) >> np.uint32(t.data)) & np.uint32(1)) != 0, np.zeros(n, bool))
            raise NotImplementedError(op)
        K = self.k
        if op in ('fadd', 'fsub'):
            x, y = self.num(a[0]), self.num(a[1])
            v = x.v + y.v if op == 'fadd' else x.v - y.v
            m = x.m + y.m; g = np.minimum(x.g, y.g)
            ex = (x.e == 0) & (y.e == 0) & (m < 2.0 ** np.clip(24 + g, -140, 900)) & (g > -140)
            e = np.where(ex, 0.0, x.e + y.e + K * (np.abs(x.v) + np.abs(y.v) + x.e + y.e) + self.tiny)
            return fin(v, e, m, np.where(ex, g, BIGNEG), x.u | y.u, K, None)
        if op == 'fmul': return self.mul(self.num(a[0]), self.num(a[1]))
        if op == 'fma':
            p = self.mul(self.num(a[0]), self.num(a[1])); y = self.num(a[2])
            return self.add(p, y)
        if op == 'fdiv':
            x, y = self.num(a[0]), self.num(a[1])
            u = x.u | y.u | (np.abs(y.v) <= 2 * y.e) | (y.v == 0)
            yv = np.where(u, 1.0, y.v)
            v = np.where(u, 0.0, x.v / yv); ay = np.abs(yv)
            pw = np.exp2(np.round(np.log2(ay)))
            ex = (x.e == 0) & (y.e == 0) & (pw == ay) & (x.g > -100) & (np.abs(x.g) < 500)
            e = np.where(ex, 0.0, (x.e + np.abs(v) * y.e) / np.maximum(ay - y.e, 1e-300) + K * np.abs(v) + self.tiny)
            g = np.where(ex, x.g - np.log2(pw), BIGNEG)
            return fin(v, e, np.abs(v), g, u, K, None)
        if op == 'fsqrt':
            x = self.num(a[0]); u = x.u | (x.v < -x.e) | ((x.v < 0) & (x.e == 0))
            xv = np.maximum(x.v, 0.0); s = np.sqrt(xv)
            ex = (x.e == 0) & (np.round(s * 16) == s * 16) & (s < 1e5) & (s * s == xv)
            e1 = np.where(xv > 2 * x.e, x.e / np.maximum(2 * s * 0.7, 1e-300), np.sqrt(x.e + xv) )
            e = np.where(ex, 0.0, e1 + K * s + self.tiny)
            u = u | ((x.v < x.e) & (x.e > 0))          # may be NaN in single precision
            return fin(s, e, s, np.where(ex, -4.0, BIGNEG), u, K, None)
        if op in ('ffloor', 'fceil', 'ftrunc', 'frne'):
            x = self.num(a[0]); f = {'ffloor': np.floor, 'fceil': np.ceil, 'ftrunc': np.trunc, 'frne': np.rint}[op]
            v = f(x.v); lo = f(x.v - x.e); hi = f(x.v + x.e)
            e = np.where((lo == v) & (hi == v), 0.0, np.maximum(np.abs(lo - v), np.abs(hi - v)))
            return fin(v, e, np.abs(v), np.zeros(self.n), x.u, K, None)
        if op == 'ite':
            c = self.bl(a[0])
            if isinstance(a[1], np.ndarray) and isinstance(a[2], np.ndarray) and not c.a.any():
                return np.where(c.v, a[1], a[2])
            x, y = self.num_nf(a[1]), self.num_nf(a[2])
            w = lambda p, q: np.where(c.v, p, q)
            e = w(x.e, y.e); u = w(x.u, y.u)
            dis = c.a
            e = np.where(dis, np.maximum(x.e, y.e) + np.abs(x.v - y.v), e); u = np.where(dis, x.u | y.u, u)
            sp = None
            if x.sp is not None or y.sp is not None:
                z = np.zeros(n, np.uint32)
                sp = np.where(dis, z, w(x.sp if x.sp is not None else z, y.sp if y.sp is not None else z))
            return N(w(x.v, y.v), e, w(x.m, y.m), w(x.g, y.g), u, sp)
        if op in ('band', 'bor', 'bxor'):
            if all(isinstance(x, np.ndarray) for x in a):
                return {'band': a[0] & a[1], 'bor': a[0] | a[1], 'bxor': a[0] ^ a[1]}[op]
            i = 0 if isinstance(a[0], N) else 1
            x = a[i]; c = t.args[1 - i]
            if isinstance(x, N) and c.op == 'const':
                k = c.data
                if op == 'band' and k == 0x7fffffff: return N(np.abs(x.v), x.e, x.m, x.g, x.u)
                if op == 'bor' and k == 0x80000000: return N(-np.abs(x.v), x.e, x.m, x.g, x.u)
                if op == 'bxor' and k == 0x80000000: return N(-x.v, x.e, x.m, x.g, x.u)
                if op == 'band' and k == 0x80000000:
                    amb = (np.abs(x.v) <= x.e) & (x.e > 0) | x.u
                    if not amb.any(): return np.where(x.v < 0, np.uint32(0x80000000), np.uint32(0))
            raise NotImplementedError('bit op on computed real')
        if op == 'app':
            nm = t.data; xs = [self.num(y) for y in a]
            u = xs[0].u.copy()
            for y in xs[1:]: u |= y.u
            if nm == 'undef': return N(np.zeros(self.n), np.zeros(self.n), np.zeros(self.n), np.full(self.n, BIGNEG), np.ones(self.n, bool))
            if nm in ('sin', 'cos'):
                x = xs[0]; v = LIB[nm](x.v); e = np.minimum(x.e, 2.0) + K + self.tiny
                return N(v, e, np.ones(self.n), np.full(self.n, BIGNEG), u)
            if nm in LIB:
                x = xs[0]; f = LIB[nm]; v = f(x.v)
                lo, hi = x.v - x.e, x.v + x.e
                if nm in ('asin', 'acos'):
                    u = u | (np.abs(x.v) > 1); lo = np.clip(lo, -1, 1); hi = np.clip(hi, -1, 1)
                if nm in ('log', 'log2'): u = u | (lo <= 0)
                if nm == 'tan': u = u | (np.abs(v) > 1e4)
                e = 1.2 * np.maximum(np.abs(f(lo) - v), np.abs(f(hi) - v)) + K * np.maximum(np.abs(v), 0.0 if nm not in ('acos',) else 1.0) + self.tiny
                return fin(np.where(u, 0, v), np.where(u, 0, e), np.abs(v), np.full(self.n, BIGNEG), u, K, None)
            if nm == 'pow':
                x, y = xs; v = np.power(x.v, y.v); u = u | ~(x.v > 0)
                e = np.abs(v) * (np.abs(y.v) * x.e / np.maximum(np.abs(x.v), 1e-300) + np.abs(np.log(np.maximum(x.v, 1e-300))) * y.e + K * (1 + np.abs(y.v * np.log2(np.maximum(x.v, 1e-300))))) + self.tiny
                return fin(np.where(u, 0, v), np.where(u, 0, e), np.abs(v), np.full(self.n, BIGNEG), u, K, None)
            if nm == 'atan2':
                y, x = xs; v = np.arctan2(y.v, x.v); r2 = x.v ** 2 + y.v ** 2; u = u | (r2 == 0)
                e = (np.abs(x.v) * y.e + np.abs(y.v) * x.e) / np.maximum(r2, 1e-300) + K * np.pi + self.tiny
                u = u | ((np.abs(y.v) <= y.e) & (x.v < 0) & (y.e > 0))
                return fin(v, e, np.abs(v), np.full(self.n, BIGNEG), u, K, None)
            if nm == 'rcpest': return self.ev1(T.mk('fdiv', 32, (T.fconst(1.0), t.args[0])), [np.full(self.n, 0x3f800000, np.uint32), a[0]])
            raise NotImplementedError('app ' + nm)
        if op == 'sitofp': return np.asarray(self.raw(a[0]).view(np.int32)).astype(np.float32).view(np.uint32)
        if op == 'uitofp': return self.raw(a[0]).astype(np.float32).view(np.uint32)
        if op in ('zext', 'sext'):
            if isinstance(a[0], B):
                x = a[0]
                if not x.a.any(): return np.where(x.v, np.uint32(1 if op == 'zext' else 0xffffffff), np.uint32(0))
                return x if op == 'zext' else self._mask(x)
            if op == 'zext': return a[0]
        if op == 'concat':
            r = np.zeros(self.n, np.uint32); pos = 0; amb = np.zeros(self.n, bool); anyb = False
            for y, z in zip(t.args, a):
                if isinstance(z, B): amb |= z.a; anyb = True; z = z.v.astype(np.uint32)
                r |= self.raw(z).astype(np.uint32) << np.uint32(pos); pos += y.w
            if anyb and amb.any(): raise NotImplementedError('ambiguous concat')
            return r
        if op == 'extract': return (self.raw(a[0]) >> np.uint32(t.data)) & np.uint32((1 << t.w) - 1)
        if op in ('add', 'sub', 'mul'):
            x, y = self.raw(a[0]).astype(np.uint64), self.raw(a[1]).astype(np.uint64)
            return ({'add': x + y, 'sub': x - y, 'mul': x * y}[op] & np.uint64(0xffffffff)).astype(np.uint32)
        raise NotImplementedError(op)

    def _mask(self, x): raise NotImplementedError('ambiguous mask')

    def num_nf(self, x):
        """numeric view; infinities and NaN constants are marked undefined"""
        return self.num(x)

    def mul(self, x, y):
        K = self.k
        v = x.v * y.v; m = x.m * y.m; g = x.g + y.g
        zero = (x.v == 0) & (x.e == 0) | (y.v == 0) & (y.e == 0)
        ex = (x.e == 0) & (y.e == 0) & (m < 2.0 ** np.clip(24 + g, -140, 900)) & (g > -140) | zero
        e = np.where(ex, 0.0, np.abs(x.v) * y.e + np.abs(y.v) * x.e + x.e * y.e + K * np.abs(v) + self.tiny)
        return fin(v, e, m, np.where(zero, 1000.0, np.where(ex, g, BIGNEG)), x.u | y.u, K, None)

    def add(self, x, y):
        K = self.k
        v = x.v + y.v; m = x.m + y.m; g = np.minimum(x.g, y.g)
        ex = (x.e == 0) & (y.e == 0) & (m < 2.0 ** np.clip(24 + g, -140, 900)) & (g > -140)
        e = np.where(ex, 0.0, x.e + y.e + K * (np.abs(x.v) + np.abs(y.v) + x.e + y.e) + self.tiny)
        return fin(v, e, m, np.where(ex, g, BIGNEG), x.u | y.u, K, None)

def compare(val, out, abstol, reltol, n):
    """val: oracle value of one output word; out: uint32 native words -> (bad mask, checked mask)"""
    if isinstance(val, B):
        chk = ~val.a
        return chk & ((out != 0) != val.v), chk
    if isinstance(val, np.ndarray):
        f = out.view(np.float32); s = val.view(np.float32)
        bad = (out != val) & ~(np.isnan(f) & np.isnan(s)) & ~((f == 0) & (s == 0))
        # constants selected by the spec compare numerically
        with np.errstate(all='ignore'):
            close = np.isfinite(s) & np.isfinite(f) & (np.abs(f.astype(np.float64) - s) <= abstol + (reltol + 1e-6) * np.abs(s.astype(np.float64)))
        return bad & ~close, np.ones(n, bool)
    chk = ~val.u & np.isfinite(val.e)
    f0 = out.view(np.float32); spbad = np.zeros(n, bool)
    if val.sp is not None:
        sc = val.sp != 0; nan = (val.sp & 0x7fffffff) > 0x7f800000
        spbad = sc & np.where(nan, ~np.isnan(f0), out != val.sp); 
    f = out.view(np.float32).astype(np.float64)
    with np.errstate(all='ignore'):
        bad = ~(np.abs(f - val.v) <= val.e + abstol + reltol * np.abs(val.v))
    if val.sp is not None: return bad & chk | spbad, chk | (val.sp != 0)
    return bad & chk, chk
