"""C07: 2D/3D/4D vector geometry"""
from specs.lib import *
P = 'C07'
def E(names, mode='real', **kw): return ens(names, P, mode, **kw)
NAN4 = splat(QNANW)
def lensq(v, d): return dot(v, v, d)
def length(v, d): return fsqrt(lensq(v, d))
def acos(x): return T.app('acos', 32, x)
def clamp1(x): return ite(flt(x, fl(-1.0)), fl(-1.0), ite(flt(ONEF, x), ONEF, x))
NZV = lambda d: (lambda v: [flt(ZEROW, lensq(v, d))])
for d in (2, 3, 4):
    V = 'XMVector%d' % d
    E(V + 'Dot')(lambda a, b, d=d: splat(dot(a, b, d)))
    E(V + 'LengthSq')(lambda v, d=d: splat(lensq(v, d)))
    E(V + 'Length')(lambda v, d=d: splat(length(v, d)))
    E(V + 'ReciprocalLength', req=None)(lambda v, d=d: splat(fdiv(ONEF, length(v, d))))
    est(V + 'LengthEst', P, lambda v, d=d: splat(length(v, d)))
    est(V + 'ReciprocalLengthEst', P, lambda v, d=d: splat(fdiv(ONEF, length(v, d))), req=NZV(d))
    est(V + 'NormalizeEst', P, lambda v, d=d: [fdiv(x, length(v, d)) for x in v], req=NZV(d))
    E(V + 'Normalize')(lambda v, d=d: [ite(iszero(lensq(v, d)), ZEROW, fdiv(x, length(v, d))) for x in v])
    E(V + 'Normalize', 'exactz', label='zero', req=lambda v, d=d: [iszero(x) for x in v[:d]] + [finite(x) for x in v], gens={0: ('mix', 0, 1, [0.0, -0.0])}, sub=False, opts={'modes': ['i']})(lambda v: ZERO4)
    E(V + 'Normalize', 'exact', label='infinite', req=lambda v, d=d: [bnot(isnan(x)) for x in v[:d]] + [anyof([isinf(x) for x in v[:d]])], gens={0: ('mix', 0, 1, [np.inf, -np.inf])}, sub=False)(lambda v: [QNANW] * 4)
    E(V + 'Reflect')(lambda i, n, d=d: [fsub(i[k], fmul(fmul(fl(2.0), dot(i, n, d)), n[k])) for k in range(4)])
    # refraction
    def refr(i, n, e, d=d):
        c = dot(i, n, d)
        R = [fsub(ONEF, fmul(fmul(e[k], e[k]), fsub(ONEF, fmul(c, c)))) for k in range(4)]
        g = [fsub(fmul(e[k], i[k]), fmul(n[k], fadd(fmul(e[k], c), fsqrt(R[k])))) for k in range(4)]
        if d == 2: return [ite(flt(R[k], ZEROW), ZEROW, g[k]) if k < 2 else None for k in range(4)]
        tot = conj([fle(r, ZEROW) for r in R])
        return [ite(tot, ZEROW, g[k]) if k < d else None for k in range(4)]
    def nb(i, n, e, d=d):
        c = dot(i, n, d)
        return [bnot(iszero(fsub(ONEF, fmul(fmul(x, x), fsub(ONEF, fmul(c, c)))))) for x in e[:d]]
    U = 'unit%d' % d
    G = {0: U, 1: U, 2: ('mix', 0.1, 2.0, [1.0, 0.5, 2.0, 1.5])}
    E(V + 'RefractV', req=nb, gens=G, sub=False, tol=32)(refr)
    E(V + 'Refract', req=lambda i, n, e, d=d: nb(i, n, splat(e), d), gens=G, tol=32, sub=False)(lambda i, n, e, d=d: refr(i, n, splat(e), d))
    # length clamping
    def clampv(v, lo, hi, d=d):
        l = length(v, d); z = iszero(lensq(v, d))
        return [ite(z, ZEROW, ite(flt(hi[k], l), fmul(fdiv(v[k], l), hi[k]), ite(flt(l, lo[k]), fmul(fdiv(v[k], l), lo[k]), v[k]))) if k < d else None for k in range(4)]
    def cgen(which, d=d):
        def g(s, n, mode):
            r = s.rng; st = r.bit_generator.state
            b = r.integers(0, 4, n) * 0.5 if mode == 'i' else r.uniform(0, 2, n)
            return np.repeat(b[:, None], 4, 1)
        return g
    def creq(v, lo, hi, d=d):
        return [fle(ZEROW, lo[0]), fle(lo[0], hi[0]), flt(hi[0], fl(float('inf')))] + [feq(x, lo[0]) for x in lo[1:d]] + [feq(x, hi[0]) for x in hi[1:d]]
    GV = {1: ('words', lambda s, n, m: np.repeat((s.rng.integers(0, 4, n) * 0.5 if m == 'i' else s.rng.uniform(0, 2, n)).astype(np.float32).view(np.uint32)[:, None], 4, 1)),
          2: ('words', lambda s, n, m: np.repeat((s.rng.integers(4, 9, n) * 0.5 if m == 'i' else s.rng.uniform(2, 4, n)).astype(np.float32).view(np.uint32)[:, None], 4, 1))}
    E(V + 'ClampLengthV', req=creq, gens=GV, sub=False)(clampv)
    E(V + 'ClampLength', req=lambda v, lo, hi: [fle(ZEROW, lo), fle(lo, hi), flt(hi, fl(float('inf')))], gens={1: ('mix', 0, 2, [0.0, 1.0, 2.0]), 2: ('mix', 2, 4, [2.0, 5.0])}, sub=False)(
        lambda v, lo, hi, d=d: clampv(v, splat(lo), splat(hi), d))
    # angles
    ANG = {0: U, 1: U}
    E(V + 'AngleBetweenNormals', gens=ANG, abstol=2e-6)(lambda a, b, d=d: splat(acos(clamp1(dot(a, b, d)))))
    E(V + 'AngleBetweenNormalsEst', gens=ANG, abstol=2e-3)(lambda a, b, d=d: splat(acos(clamp1(dot(a, b, d)))))
    E(V + 'AngleBetweenVectors', abstol=2e-6)(lambda a, b, d=d: splat(acos(clamp1(fdiv(dot(a, b, d), fmul(length(a, d), length(b, d)))))))
E('XMVector2Cross')(lambda a, b: splat(fsub(fmul(a[0], b[1]), fmul(a[1], b[0]))))
E('XMVector3Cross')(lambda a, b: cross(a, b) + [ZEROW])
def det3(a, b, c): return dot(a, cross(b, c))
def cof(vs, k): return det3(*[[v[j] for j in range(4) if j != k] for v in vs])
E('XMVector4Cross')(lambda a, b, c: [cof((a, b, c), 0), fneg(cof((a, b, c), 1)), cof((a, b, c), 2), fneg(cof((a, b, c), 3))])
E('XMVector2Orthogonal')(lambda v: [fneg(v[1]), v[0], None, None])
E('XMVector4Orthogonal')(lambda v: [v[2], v[3], fneg(v[0]), fneg(v[1])])
add('XMVector3Orthogonal', P, 'rel', lambda A, O: [('orthogonal', iszero(dot(A[0], O[0], 3))), ('nonzero', bor(iszero(lensq(A[0], 3)), bnot(conj([iszero(x) for x in O[0][:3]]))))])
for d in (2, 3):
    def lpd(a, b, p, d=d):
        pv = vsub(p, a); lv = vsub(b, a); s = fdiv(dot(pv, lv, d), lensq(lv, d))
        return splat(length(vsub(pv, vscale(lv, s)), d))
    E('XMVector%dLinePointDistance' % d)(lpd)
def il(p1, p2, q1, q2):
    v1, v2, v3 = vsub(p2, p1), vsub(q2, q1), vsub(p1, q1)
    cr = lambda a, b: fsub(fmul(a[0], b[1]), fmul(a[1], b[0]))
    c1, c2 = cr(v1, v2), cr(v2, v3); eps = const(0x34000000)
    par = fle(fabs_(c1), eps); coin = fle(fabs_(c2), eps)
    return [ite(par, ite(coin, const(0x7f800000), QNANW), fadd(p1[k], fmul(v1[k], fdiv(c2, c1)))) if k < 2 else None for k in range(4)]
E('XMVector2IntersectLine')(il)
@E('XMVector3ComponentsFromNormal')
def _(p, q, v, n):
    s = dot(v, n, 3); par = vscale(n, s)
    return [par, vsub(v, par)]
