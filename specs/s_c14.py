"""C14: trigonometric and transcendental functions"""
from specs.lib import *
P = 'C14'
def A(c, d=0.0):
    def tol(lo, hi, fl, fh): return c + d * np.minimum(np.abs(lo), np.abs(hi)) * (lo * hi >= 0)
    return tol
def R(c, a=0.0):
    def tol(lo, hi, fl, fh): return a + c * np.minimum(np.abs(fl), np.abs(fh)) * (fl * fh >= 0)
    return tol
def TAN(c, lim, d=0.0):
    """error relative to the slope of the tangent; arguments where |tan| exceeds lim are not constrained"""
    def tol(lo, hi, fl, fh):
        m = np.minimum(np.abs(fl), np.abs(fh)) * (fl * fh >= 0)
        return np.where(m > lim, np.inf, (c + d * np.minimum(np.abs(lo), np.abs(hi)) * (lo * hi >= 0)) * (1 + m * m))
    return tol
def app(nm, x): return T.app(nm, 32, x)
TRIG = ('mix', -1000, 1000, [0.0, -0.0, 1.5707964, -1.5707964, 3.1415927, -3.1415927, 4.712389, 9.424778, 6.2831855, 1.0, 1e-5])
UNIT = ('mix', -1, 1, [0.0, 1.0, -1.0, 0.5, -0.5, 0.99999994, -0.99999994])
EXPG = ('mix', -149, 127, [0.0, 1.0, -1.0, 126.0, -126.0, -0.5, 0.5, -127.0, -149.0, -149.9, -126.5, -125.0, 127.9])
def un(vec, scal, f, lo, hi, tol, g):
    if vec: add(vec, P, 'approx', lambda v: [app(f, x) for x in v], opts={'approx': (lo, hi, tol)}, gens={0: g})
    if scal: add(scal, P, 'approx', lambda x: app(f, x), opts={'approx': (lo, hi, tol)}, gens={0: g})
T1, T2 = A(6e-7, 1.3e-7), A(2.2e-5, 1.5e-7)
for f in ('Sin', 'Cos'):
    un('XMVector' + f, 'XMScalar' + f, f.lower(), -1000, 1000, T1, TRIG)
    un('XMVector%sEst' % f, 'XMScalar%sEst' % f, f.lower(), -1000, 1000, T2, TRIG)
for e, t in (('', T1), ('Est', T2)):
    add('XMVectorSinCos' + e, P, 'approx', lambda s, c, v: [[app('sin', x) for x in v], [app('cos', x) for x in v]], opts={'approx': (-1000, 1000, t)}, gens={2: TRIG})
    add('XMScalarSinCos' + e, P, 'approx', lambda s, c, v: [app('sin', v), app('cos', v)], opts={'approx': (-1000, 1000, t)}, gens={2: TRIG})
A1, A2 = A(8e-7), A(9e-5)
for f in ('ASin', 'ACos'):
    un('XMVector' + f, 'XMScalar' + f, f.lower(), -1, 1, A1, UNIT)
    un('XMVector%sEst' % f, 'XMScalar%sEst' % f, f.lower(), -1, 1, A2, UNIT)
un('XMVectorATan', None, 'atan', -3.4e38, 3.4e38, A(6e-7), ('mix', -10, 10, [0.0, 1.0, -1.0, 1e10, -1e10, 1e-10]))
un('XMVectorATanEst', None, 'atan', -3.4e38, 3.4e38, A(2e-5), ('mix', -10, 10, [0.0, 1.0, -1.0, 1e10, -1e10, 1e-10]))
un('XMVectorTan', None, 'tan', -1000, 1000, TAN(2e-6, 1e3, 1.5e-7), TRIG)
un('XMVectorTanEst', None, 'tan', -1000, 1000, TAN(2.6e-3, 1e2), TRIG)
for n in ('XMVectorExp2', 'XMVectorExp'): un(n, None, 'exp2', -150, 127.99999, R(1.1e-5, 1.5e-45), EXPG)
HG = ('mix', -20, 20, [0.0, 1.0, -1.0, 0.5, 1e-4])
un('XMVectorSinH', None, 'sinh', -88, 88, R(2.5e-5, 8e-6), HG)
un('XMVectorCosH', None, 'cosh', -88, 88, R(2.5e-5), HG)
un('XMVectorTanH', None, 'tanh', -1000, 1000, A(5.5e-6), HG)
SPW = ('u32', [0x7f800000, 0xff800000, 0x7fc00000, 0x43000000, 0xc3160000, 0x43160000, 0xc3200000, 0x7f7fffff, 0xff7fffff, 0x42fffffe])
def exp_sp(v):
    return [ite(isnan(x), QNANW, ite(fge(x, fl(128.0)), const(0x7f800000), ZEROW)) for x in v]
for n in ('XMVectorExp2', 'XMVectorExp'):
    add(n, P, 'exact', exp_sp, label='limits', req=lambda v: [bor(isnan(x), bor(fge(x, fl(128.0)), flt(x, fl(-150.0)))) for x in v], gens={0: SPW}, opts={'libm': 'pow', 'modes': ['i']}, sub=False)
add('XMVectorPow', P, 'exact', lambda a, b: [T.app('pow', 32, x, y) for x, y in zip(a, b)], gens={0: ('mix', 0.1, 10, [1.0, 2.0]), 1: ('mix', -5, 5, [0.0, 1.0, 2.0])}, oracle=lambda x, o: pow_or(x, o))
def pow_or(x, o):
    a, b = [x[:, k:k + 4].copy().view(np.float32).astype(np.float64) for k in (0, 4)]
    with np.errstate(all='ignore'):
        v = np.power(a, b); f = o.copy().view(np.float32).astype(np.float64)
        ok = (a > 0) & np.isfinite(a) & np.isfinite(b) & (np.abs(v) < 1e37) & (np.abs(v) > 1e-37)
        bad = ok & ~(np.abs(f - v) <= 1e-5 * np.abs(v))
    return bad.any(1), ok.any(1)
# two-argument arc tangent
def at2(Y, X):
    return [verify_atan2(y, x) for y, x in zip(Y, X)]
def verify_atan2(y, x):
    return atan2(y, x)
def nzreq(Y, X): return [bor(bnot(iszero(y)), flt(ZEROW, x)) for y, x in zip(Y, X)]
AG = {0: ('mix', -10, 10, [1.0, -1.0, 0.5]), 1: ('mix', -10, 10, [0.0, 1.0, -1.0, 2.0])}
add('XMVectorATan2', P, 'real', at2, gens=AG, abstol=2e-6, sub=True)
add('XMVectorATan2Est', P, 'real', at2, req=nzreq, gens=AG, abstol=2e-3, sub=False, opts={'ideal_rcp': 1})
add('XMVectorATan2', P, 'exact', lambda Y, X: [at2sp(y, x) for y, x in zip(Y, X)], label='special',
    req=lambda Y, X: [conj([bnot(isnan(x)), bnot(isnan(y)), disj([iszero(y), iszero(x), isinf(y)])]) for y, x in zip(Y, X)], sub=False,
    gens={0: ('u32', [0, 0x80000000, 0x7f800000, 0xff800000]), 1: ('u32', [0, 0x80000000, 0x7f800000, 0xff800000, 0x3f800000, 0xbf800000, 0x7f7fffff])}, opts={'libm': 'atan2', 'modes': ['i']})
add('XMVectorATan2Est', P, 'exact', lambda Y, X: [at2sp(y, x) for y, x in zip(Y, X)], label='special',
    req=lambda Y, X: [conj([bnot(isnan(x)), bnot(isnan(y)), disj([iszero(y), iszero(x), isinf(y)])]) for y, x in zip(Y, X)], sub=False,
    gens={0: ('u32', [0, 0x80000000, 0x7f800000, 0xff800000]), 1: ('u32', [0, 0x80000000, 0x7f800000, 0xff800000, 0x3f800000, 0xbf800000, 0x7f7fffff])}, opts={'libm': 'atan2', 'modes': ['i']})
def at2sp(y, x):
    s = T.band(y, const(0x80000000)); pos = eq(T.band(x, const(0x80000000)), ZEROW)
    w = lambda k: T.bor(fl(k), s)
    return ite(isinf(y), ite(isinf(x), ite(pos, w(math.pi / 4), w(3 * math.pi / 4)), w(math.pi / 2)), ite(iszero(y), ite(pos, s, w(math.pi)), w(math.pi / 2)))
@ens('XMFresnelTerm', P, 'real', gens={0: ('mix', 0.01, 1, [1.0, 0.5]), 1: ('mix', 1, 3, [1.0, 1.5, 2.0])}, req=lambda c, n: [finite(x) for x in list(c) + list(n)], tol=40)
def _(C, N_):
    r = []
    for c, n in zip(C, N_):
        g = fsqrt(fabs_(fsub(fadd(fmul(c, c), fmul(n, n)), ONEF)))
        s, d = fadd(g, c), fsub(g, c)
        a = fsub(fmul(c, s), ONEF); b = fadd(fmul(c, d), ONEF)
        v = fmul(fmul(fl(.5), fdiv(fmul(d, d), fmul(s, s))), fadd(fdiv(fmul(a, a), fmul(b, b)), ONEF))
        r.append(ite(flt(v, ZEROW), ZEROW, ite(flt(ONEF, v), ONEF, v)))
    return r
# angle constants: the nearest floats
ens('CONST_pi', P, 'bits')(lambda: [fl(math.pi), fl(2 * math.pi), fl(math.pi / 2), fl(math.pi / 4)])
ens('CONST_inv', P, 'bits')(lambda: [fl(1 / math.pi), fl(1 / (2 * math.pi))])
