"""vocabulary for contracts"""
from xmv.term import *
from xmv import term as T
from xmv.spec import ens, add, API, WORDS, group
import math
import numpy as np

def fl(x): return T.fconst(x)
ZEROW = const(0); ONEF = fl(1.0); ONES = const(0xffffffff); QNANW = const(0x7fc00000)
ZERO4 = [ZEROW] * 4
def splat(x): return [x] * 4
def mask(b): return ite(b, ONES, ZEROW)
def lanes(f, *vs): return [f(*t) for t in zip(*vs)]
def isnan(t): return T.mk('funo', 1, (t, t)) if t.op != 'const' else (TRUE if T.is_nan_bits(t.data) else FALSE)
def isinf(t): return eq(fabs_(t), const(0x7f800000))
def anyof(cs):
    r = FALSE
    for c in cs: r = bor(r, c)
    return r
def finite(t): return ult(fabs_(t), const(0x7f800000))
def sel(c, a, b): return ite(c, a, b)
def pick(ws, i):
    """ws[i] for a symbolic index"""
    r = ws[-1]
    for k in range(len(ws) - 2, -1, -1): r = ite(eq(i, const(k, i.w)), ws[k], r)
    return r
# ideal-real helpers (association order is irrelevant in real mode)
def fsum(xs):
    r = xs[0]
    for x in xs[1:]: r = fadd(r, x)
    return r
def dot(a, b, n=None):
    n = n or len(a)
    return fsum([fmul(x, y) for x, y in zip(a[:n], b[:n])])
def vadd(a, b): return [fadd(x, y) for x, y in zip(a, b)]
def vsub(a, b): return [fsub(x, y) for x, y in zip(a, b)]
def vmul(a, b): return [fmul(x, y) for x, y in zip(a, b)]
def vscale(a, k): return [fmul(x, k) for x in a]
def vdiv(a, k): return [fdiv(x, k) for x in a]
def vneg(a): return [fneg(x) for x in a]
def cross(a, b):
    return [fsub(fmul(a[1], b[2]), fmul(a[2], b[1])), fsub(fmul(a[2], b[0]), fmul(a[0], b[2])), fsub(fmul(a[0], b[1]), fmul(a[1], b[0]))]
def fmin(a, b): return ite(flt(a, b), a, b)
def fmax(a, b): return ite(flt(b, a), a, b)
def iszero(x): return feq(x, ZEROW)
PI = fl(math.pi); TWOPI = fl(2 * math.pi)
EST = fl(2.0 ** -11)
def near_rel(o, s, rel=EST): return fle(fabs_(fsub(o, s)), fmul(rel, fabs_(s)))
def close_all(outs, spec, rel=EST, tag='out'):
    return [('%s%d' % (tag, k), near_rel(o, s, rel)) for k, (o, s) in enumerate(zip(outs, spec)) if s is not None]
def est(name, prop, fn, rel=EST, **kw):
    """estimate functions: relative error at most 2^-11 of the exact value, component by component"""
    return add(name, prop, 'rel', lambda A, O: close_all(flatw(O), flatw(fn(*A)), rel), **kw)
def flatw(x):
    from xmv.spec import flat
    return flat(x)
# matrices: row vectors, v*M
def row(v, M): return [fsum([fmul(v[k], M[k][j]) for k in range(4)]) for j in range(4)]
def mmul4(A, B): return [row(r, B) for r in A]
def transp(M): return [[M[j][i] for j in range(4)] for i in range(4)]
def det3(a, b, c): return dot(a, cross(b, c))
def minor(M, i, j):
    return det3(*[[M[r][c] for c in range(4) if c != j] for r in range(4) if r != i])
def cofactor(M, i, j):
    m = minor(M, i, j); return m if (i + j) % 2 == 0 else fneg(m)
def det4(M): return fsum([fmul(M[0][j], cofactor(M, 0, j)) for j in range(4)])
IDENT = [[ONEF if i == j else ZEROW for j in range(4)] for i in range(4)]
def minverse(M):
    d = det4(M)
    return [[fdiv(cofactor(M, j, i), d) for j in range(4)] for i in range(4)], d
def tr(v, M):
    """v (3 components) with w = 1"""
    return [fsum([fmul(v[0], M[0][j]), fmul(v[1], M[1][j]), fmul(v[2], M[2][j]), M[3][j]]) for j in range(4)]
# quaternions (x,y,z,w); qmul(a,b) is the Hamilton product a*b
def qmul(a, b):
    ax, ay, az, aw = a; bx, by, bz, bw = b
    s = lambda *t: fsum(list(t))
    return [s(fmul(aw, bx), fmul(ax, bw), fmul(ay, bz), fneg(fmul(az, by))), s(fmul(aw, by), fneg(fmul(ax, bz)), fmul(ay, bw), fmul(az, bx)),
            s(fmul(aw, bz), fmul(ax, by), fneg(fmul(ay, bx)), fmul(az, bw)), s(fmul(aw, bw), fneg(fmul(ax, bx)), fneg(fmul(ay, by)), fneg(fmul(az, bz)))]
def conjq(q): return [fneg(q[0]), fneg(q[1]), fneg(q[2]), q[3]]
def rotate(v, q): return qmul(qmul(q, [v[0], v[1], v[2], ZEROW]), conjq(q))

def undef(x): return T.app('undef', 32, x)
def app1(nm, x): return T.app(nm, 32, x)
def sin(x): return app1('sin', x)
def cos(x): return app1('cos', x)
def acos(x): return app1('acos', x)
def atan2(y, x):
    """real-level two-argument arc tangent; open where the sign of a zero decides"""
    from xmv.verify import atan2_def
    return ite(band(iszero(y), fle(x, ZEROW)), undef(x), atan2_def(y, x))
def half(x): return fmul(x, fl(.5))
def length3(v): return fsqrt(dot(v, v, 3))
def norm3(v):
    """XMVector3Normalize"""
    l = length3(v); return [ite(iszero(dot(v, v, 3)), ZEROW, fdiv(x, l)) for x in v]
def normplane(p):
    l = length3(p); return [fdiv(x, l) for x in p]
def fin3(v): return [finite(x) for x in v[:3]]
def nz3(v): return disj([bnot(iszero(x)) for x in v[:3]])
EPS = const(0x34000000)   # g_XMEpsilon
NAN4 = splat(QNANW)
