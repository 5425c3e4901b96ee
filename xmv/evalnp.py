"""Bit-exact vectorised evaluation of terms on concrete inputs (numpy)."""
import numpy as np
from . import term as T

def _m(w): return (1 << w) - 1
def dt(w): return np.uint32 if w <= 32 else np.uint64

def f32(a): return a.view(np.float32)

def rcp_np(x): return (np.float32(1) / x).astype(np.float32)

def fma_np(a, b, c):
    """single-rounding a*b+c: exact product in double, addition rounded to odd, then to single"""
    with np.errstate(all='ignore'):
        p = a.astype(np.float64) * b.astype(np.float64); c = c.astype(np.float64)
        s = p + c
        bb = s - p; e = (p - (s - bb)) + (c - bb)
        bits = s.view(np.int64) if s.flags['C_CONTIGUOUS'] else np.ascontiguousarray(s).view(np.int64)
        fix = np.isfinite(s) & np.isfinite(e) & (e != 0) & ((bits & 1) == 0)
        up = (e > 0) == (s > 0)      # magnitude grows when the error has the sign of s
        adj = np.where(up, bits + 1, bits - 1)
        r = np.where(fix, adj, bits).view(np.float64)
        return r.astype(np.float32)

LIB = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan, 'sinh': np.sinh, 'cosh': np.cosh,
       'tanh': np.tanh, 'exp': np.exp, 'exp2': np.exp2, 'log': np.log, 'log2': np.log2}

def evaluate(roots, env, n):
    """env: var name -> uint32 array of length n.  Returns list of arrays."""
    val = {}
    old = np.seterr(all='ignore')
    try:
        for t in T.subterms(roots):
            val[t.id] = _ev(t, [val[a.id] for a in t.args], env, n)
        return [val[r.id] for r in roots]
    finally:
        np.seterr(**old)

def _obj(x): return x.astype(object)

def _ev(t, a, env, n):
    op, w = t.op, t.w
    if op == 'const':
        if w > 64: return np.array([t.data] * n, dtype=object)
        return np.full(n, t.data, dtype=dt(w))
    if op == 'var':
        v = env.get(t.data)
        if v is None: v = np.full(n, 0xA5A5A5A5 & _m(min(w, 32)), dtype=np.uint32)
        return v.astype(dt(w)) if w <= 64 else v.astype(object)
    if w > 64 or any(x.w > 64 for x in t.args):
        return _big(t, a, n)
    D = dt(w); M = D(_m(w))
    if op == 'band': return a[0] & a[1]
    if op == 'bor': return a[0] | a[1]
    if op == 'bxor': return a[0] ^ a[1]
    if op == 'ite': return np.where(a[0] != 0, a[1], a[2])
    if op == 'concat':
        r = np.zeros(n, dtype=D); pos = 0
        for x, y in zip(t.args, a):
            r |= y.astype(D) << D(pos); pos += x.w
        return r
    if op == 'extract': return ((a[0] >> a[0].dtype.type(t.data)).astype(np.uint64) & np.uint64(_m(w))).astype(D)
    if op == 'zext': return a[0].astype(D)
    if op == 'sext':
        sw = t.args[0].w; x = a[0].astype(np.uint64)
        s = (x >> np.uint64(sw - 1)) & np.uint64(1)
        return ((x | np.where(s != 0, np.uint64(_m(64) ^ _m(sw)), np.uint64(0))) & np.uint64(_m(w))).astype(D)
    if op in ('add', 'sub', 'mul'):
        x, y = a[0].astype(np.uint64), a[1].astype(np.uint64)
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y
        return (r & np.uint64(_m(w))).astype(D)
    if op in ('udiv', 'urem'):
        y = np.where(a[1] == 0, D(1), a[1]); return a[0] // y if op == 'udiv' else a[0] % y
    if op in ('sdiv', 'srem'):
        x = _sgn(a[0], w); y = _sgn(a[1], w); y = np.where(y == 0, 1, y)
        q = np.trunc(x / y).astype(np.int64); r = x - q * y
        return ((q if op == 'sdiv' else r).astype(np.uint64) & np.uint64(_m(w))).astype(D)
    if op in ('shl', 'lshr', 'ashr'):
        k = np.minimum(a[1], D(63)).astype(np.uint64); big = a[1] >= D(w)
        if op == 'ashr':
            x = _sgn(a[0], w); r = (x >> np.minimum(k, np.uint64(w - 1)).astype(np.int64)).astype(np.uint64) & np.uint64(_m(w)); return r.astype(D)
        x = a[0].astype(np.uint64)
        r = (x << k if op == 'shl' else x >> k) & np.uint64(_m(w))
        return np.where(big, D(0), r.astype(D))
    if op == 'eq': return (a[0] == a[1]).astype(np.uint32)
    if op == 'ult': return (a[0] < a[1]).astype(np.uint32)
    if op == 'ule': return (a[0] <= a[1]).astype(np.uint32)
    if op in ('slt', 'sle'):
        ww = t.args[0].w; x, y = _sgn(a[0], ww), _sgn(a[1], ww)
        return (x < y if op == 'slt' else x <= y).astype(np.uint32)
    if op in ('feq', 'flt', 'fle', 'funo'):
        if t.args[0].w == 64: x, y = a[0].view(np.float64), a[1].view(np.float64)
        else: x, y = f32(a[0]), f32(a[1])
        r = x == y if op == 'feq' else x < y if op == 'flt' else x <= y if op == 'fle' else np.isnan(x) | np.isnan(y)
        return r.astype(np.uint32)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        v = np.float64 if w == 64 else np.float32; u = np.uint64 if w == 64 else np.uint32
        x, y = a[0].view(v), a[1].view(v)
        r = x + y if op == 'fadd' else x - y if op == 'fsub' else x * y if op == 'fmul' else x / y
        return r.astype(v).view(u)
    if op == 'fma': return fma_np(f32(a[0]), f32(a[1]), f32(a[2])).view(np.uint32)
    if op == 'fsqrt': return np.sqrt(f32(a[0])).view(np.uint32)
    if op in ('ffloor', 'fceil', 'ftrunc', 'frne'):
        x = f32(a[0]); g = {'ffloor': np.floor, 'fceil': np.ceil, 'ftrunc': np.trunc, 'frne': np.rint}[op]
        return g(x).view(np.uint32)
    if op == 'sitofp':
        x = _sgn(a[0], t.args[0].w)
        return x.astype(np.float32).view(np.uint32) if w == 32 else x.astype(np.float64).view(np.uint64)
    if op == 'uitofp':
        x = a[0].astype(np.uint64)
        return x.astype(np.float32).view(np.uint32) if w == 32 else x.astype(np.float64).view(np.uint64)
    if op in ('fptosi', 'fptoui'):
        x = f32(a[0]).astype(np.float64); x = np.where(np.isfinite(x), x, 0.0)
        x = np.trunc(np.clip(x, -9e18, 9e18)).astype(np.int64)
        return (x.astype(np.uint64) & np.uint64(_m(w))).astype(D)
    if op == 'h2f': return a[0].astype(np.uint16).view(np.float16).astype(np.float32).view(np.uint32)
    if op == 'f2h': return f32(a[0]).astype(np.float16).view(np.uint16).astype(np.uint32)
    if op == 'fpext': return f32(a[0]).astype(np.float64).view(np.uint64)
    if op == 'fptrunc': return a[0].view(np.float64).astype(np.float32).view(np.uint32)
    if op == 'app':
        nm = t.data
        if nm in LIB: return LIB[nm](f32(a[0]).astype(np.float64)).astype(np.float32).view(np.uint32)
        if nm == 'rcpest': return (1.0 / f32(a[0]).astype(np.float64)).astype(np.float32).view(np.uint32)
        if nm == 'rsqrtest': return (1.0 / np.sqrt(f32(a[0]).astype(np.float64))).astype(np.float32).view(np.uint32)
        if nm == 'pow': return np.power(f32(a[0]).astype(np.float64), f32(a[1]).astype(np.float64)).astype(np.float32).view(np.uint32)
        if nm == 'atan2': return np.arctan2(f32(a[0]).astype(np.float64), f32(a[1]).astype(np.float64)).astype(np.float32).view(np.uint32)
        if nm == 'fmod': return np.fmod(f32(a[0]), f32(a[1])).view(np.uint32)
    raise NotImplementedError(op + ' ' + str(t.data))

def _sgn(x, w):
    x = x.astype(np.int64) if w < 64 else x.view(np.int64)
    if w < 64:
        x = np.where(x >> (w - 1) & 1, x - (1 << w), x)
    return x

def _big(t, a, n):
    op, w = t.op, t.w
    a = [x.astype(object) if x.dtype != object else x for x in a]
    if op == 'band': r = a[0] & a[1]
    elif op == 'bor': r = a[0] | a[1]
    elif op == 'bxor': r = a[0] ^ a[1]
    elif op == 'ite': r = np.where(a[0] != 0, a[1], a[2])
    elif op == 'concat':
        r = np.zeros(n, dtype=object); pos = 0
        for x, y in zip(t.args, a): r = r | (y << pos); pos += x.w
    elif op == 'extract': r = (a[0] >> t.data) & _m(w)
    elif op == 'zext': r = a[0]
    elif op == 'sext':
        sw = t.args[0].w; r = np.array([(x - (1 << sw) if x >> (sw - 1) else x) & _m(w) for x in a[0]], dtype=object)
    elif op in ('add', 'sub', 'mul'):
        r = a[0] + a[1] if op == 'add' else a[0] - a[1] if op == 'sub' else a[0] * a[1]; r = r & _m(w)
    elif op in ('eq', 'ult', 'ule'):
        r = a[0] == a[1] if op == 'eq' else a[0] < a[1] if op == 'ult' else a[0] <= a[1]
    elif op == 'slt':
        sw = t.args[0].w; f = lambda v: v - (1 << sw) if v >> (sw - 1) else v
        r = np.array([f(x) < f(y) for x, y in zip(*a)])
    else: raise NotImplementedError('big ' + op)
    if w <= 64: return r.astype(dt(w))
    return r
