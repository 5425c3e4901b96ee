"""C06: component-wise compound arithmetic and interpolation"""
from specs.lib import *
P = 'C06'
def E(names, mode='real', **kw): return ens(names, P, mode, **kw)
L = lambda f: (lambda *vs: [f(*t) for t in zip(*vs)])
E('XMVectorMultiplyAdd')(L(lambda a, b, c: fadd(fmul(a, b), c)))
E('XMVectorNegativeMultiplySubtract')(L(lambda a, b, c: fsub(c, fmul(a, b))))
E('XMVectorReciprocal', 'exact')(L(lambda x: fdiv(ONEF, x)))
E('XMVectorReciprocalSqrt', 'exact')(L(lambda x: fdiv(ONEF, fsqrt(x))))
E('XMVectorSqrtEst', 'exact')(L(fsqrt))
NZ = ('mix', 0.01, 10, [1.0, 2.0, 0.5, 3.0, 1e10, 1e-10])
est('XMVectorReciprocalEst', P, L(lambda x: fdiv(ONEF, x)), req=lambda v: [bnot(iszero(x)) for x in v], sub=False)
est('XMVectorReciprocalSqrtEst', P, L(lambda x: fdiv(ONEF, fsqrt(x))), req=lambda v: [flt(ZEROW, x) for x in v], gens={0: NZ})
E('XMVectorSum')(lambda v: splat(fsum(v)))
lerp = lambda a, b, t: fadd(a, fmul(t, fsub(b, a)))
E('XMVectorLerp')(lambda a, b, t: [lerp(x, y, t) for x, y in zip(a, b)])
E('XMVectorLerpV')(lambda a, b, t: [lerp(x, y, s) for x, y, s in zip(a, b, t)])
F = fl
def P3(t, c3, c2, c1, c0):
    return fsum([fmul(F(c3), fmul(t, fmul(t, t))), fmul(F(c2), fmul(t, t)), fmul(F(c1), t), F(c0)])
HB = [(2, -3, 0, 1), (1, -2, 1, 0), (-2, 3, 0, 0), (1, -1, 0, 0)]                # p0, t0, p1, t1
CB = [(-.5, 1, -.5, 0), (1.5, -2.5, 0, 1), (-1.5, 2, .5, 0), (.5, -.5, 0, 0)]
E('XMVectorHermite')(lambda p0, t0, p1, t1, t: [fsum([fmul(P3(t, *HB[j]), q[k]) for j, q in enumerate((p0, t0, p1, t1))]) for k in range(4)])
E('XMVectorHermiteV')(lambda p0, t0, p1, t1, t: [fsum([fmul(P3(t[j], *HB[j]), q[k]) for j, q in enumerate((p0, t0, p1, t1))]) for k in range(4)])
E('XMVectorCatmullRom')(lambda a, b, c, d, t: [fsum([fmul(P3(t, *CB[j]), q[k]) for j, q in enumerate((a, b, c, d))]) for k in range(4)])
E('XMVectorCatmullRomV')(lambda a, b, c, d, t: [fsum([fmul(P3(t[k], *CB[j]), q[k]) for j, q in enumerate((a, b, c, d))]) for k in range(4)])
bary = lambda a, b, c, f, g: fsum([a, fmul(f, fsub(b, a)), fmul(g, fsub(c, a))])
E('XMVectorBaryCentric')(lambda a, b, c, f, g: [bary(x, y, z, f, g) for x, y, z in zip(a, b, c)])
E('XMVectorBaryCentricV')(L(bary))
E('XMVectorMod')(L(lambda a, b: fsub(a, fmul(b, f1('ftrunc', fdiv(a, b))))))
E('XMVectorModAngles', tol=24)(L(lambda a: fsub(a, fmul(TWOPI, f1('frne', fmul(a, fl(1 / (2 * math.pi))))))))
def wrap(r): return ite(flt(r, fneg(PI)), fadd(r, TWOPI), ite(fge(r, PI), fsub(r, TWOPI), r))
ANG = ('mix', -math.pi, 3.1415925, [0.0, -3.1415927, 3.1415925, 1.5707964, -1.5707964])
E('XMVectorAddAngles', gens={0: ANG, 1: ANG})(L(lambda a, b: wrap(fadd(a, b))))
E('XMVectorSubtractAngles', gens={0: ANG, 1: ANG})(L(lambda a, b: wrap(fsub(a, b))))
E('XMConvertToRadians', reltol=3e-7)(lambda d: fmul(d, fl(math.pi / 180)))
E('XMConvertToDegrees', reltol=3e-7)(lambda r: fmul(r, fl(180 / math.pi)))
def modangle(a):
    # the representative of a modulo 2*pi in [-pi, pi]
    t = fadd(a, PI); m = fabs_(t)
    r = fsub(fsub(m, fmul(TWOPI, f1('ftrunc', fdiv(m, TWOPI)))), PI)
    return ite(flt(t, ZEROW), fneg(r), r)
E('XMScalarModAngle', req=lambda a: [fle(fabs_(a), fl(1e6))], sub=False)(modangle)
