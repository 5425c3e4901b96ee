"""C13: planes"""
from specs.lib import *
P = 'C13'
def E(names, mode='real', **kw): return ens(names, P, mode, **kw)
E('XMPlaneDot')(lambda p, v: splat(dot(p, v)))
dotc = lambda p, v: fadd(dot(p, v, 3), p[3])
E('XMPlaneDotCoord')(lambda p, v: splat(dotc(p, v)))
E('XMPlaneDotNormal')(lambda p, v: splat(dot(p, v, 3)))
E('XMPlaneFromPointNormal')(lambda p, n: n[:3] + [fneg(dot(p, n, 3))])
@E('XMPlaneFromPoints')
def fromp(a, b, c):
    n = norm3(cross(vsub(a, b), vsub(a, c)) + [ZEROW])
    return n[:3] + [fneg(dot(n, a, 3))]
@E('XMPlaneIntersectLine', nsamp=2)
def iline(p, a, b):
    D = fsub(dot(p, a, 3), dot(p, b, 3)); t = fdiv(dotc(p, a), D)
    return [ite(fle(fabs_(D), EPS), QNANW, fadd(fmul(fsub(y, x), t), x)) for x, y in zip(a, b)]
@E('XMPlaneIntersectPlane')
def iplane(_1, _2, p, q):
    v1 = cross(q, p); l = dot(v1, v1, 3); v2 = cross(q, v1); v3 = cross(v1, p)
    a = [fdiv(fadd(fmul(v2[k], p[3]), fmul(v3[k], q[3])), l) for k in range(3)]
    par = fle(l, EPS)
    return [[ite(par, QNANW, x) for x in a] + [None], [ite(par, QNANW, fadd(x, y)) for x, y in zip(a, v1)] + [None]]
# the two points lie on both planes and differ by a vector along both
add('XMPlaneIntersectPlane', P, 'rel', lambda A, O: [('on-planes-%d%d' % (i, j), bor(fle(lsq(A), EPS), iszero(dotc(A[2 + j], O[i])))) for i in (0, 1) for j in (0, 1)], label='on-planes', oracle=lambda x, o: (np.zeros(len(x), bool), np.zeros(len(x), bool)))
def lsq(A):
    v = cross(A[3], A[2]); return dot(v, v, 3)
E('XMPlaneNormalize')(lambda p: normplane(p))
est('XMPlaneNormalizeEst', P, lambda p: normplane(p), req=lambda p: [flt(ZEROW, dot(p, p, 3))])
E('XMPlaneTransform')(lambda p, M: row(p, M))
E('XMPlaneNearEqual', gens={2: ('mix', 0, 1, [0.1, 0.5])})(lambda p, q, e: conj([fle(fabs_(fsub(x, y)), z) for x, y, z in zip(normplane(p), normplane(q), e)]))
