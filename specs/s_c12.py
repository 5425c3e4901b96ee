"""C12: quaternions"""
from specs.lib import *
P = 'C12'
def E(names, mode='real', **kw): return ens(names, P, mode, **kw)
LEN = lambda q: fsqrt(dot(q, q))
E('XMQuaternionDot')(lambda a, b: splat(dot(a, b)))
E('XMQuaternionLengthSq')(lambda a: splat(dot(a, a)))
E('XMQuaternionLength')(lambda a: splat(LEN(a)))
E('XMQuaternionReciprocalLength')(lambda a: splat(fdiv(ONEF, LEN(a))))
E('XMQuaternionNormalize')(lambda q: [ite(iszero(dot(q, q)), ZEROW, fdiv(x, LEN(q))) for x in q])
est('XMQuaternionNormalizeEst', P, lambda q: [fdiv(x, LEN(q)) for x in q], req=lambda q: [flt(ZEROW, dot(q, q))])
E('XMQuaternionConjugate', 'exact')(lambda q: conjq(q))
E('XMQuaternionIdentity', 'bits')(lambda: IDENT[3])
@E('XMQuaternionInverse')
def qinv(q):
    l = dot(q, q); return [ite(fle(l, EPS), ZEROW, fdiv(x, l)) for x in conjq(q)]
E('XMQuaternionMultiply')(lambda a, b: qmul(b, a))
OME = fl(1.0 - 0.00001)
QU = 'unit4'
@E('XMQuaternionLn', gens={0: QU}, abstol=1e-5)
def ln(q):
    w = q[3]; th = acos(w); s = fdiv(th, sin(th)); inb = band(fle(w, OME), fle(fneg(OME), w))
    return [ite(inb, fmul(x, s), x) for x in q[:3] + [ZEROW]]
@E('XMQuaternionExp', abstol=2e-5, gens={0: ('mix', -1, 1, [0.0, 0.5])})
def exp(q):
    th = length3(q); s = fdiv(sin(th), th)
    return [ite(fle(fabs_(th), EPS), x, fmul(x, s)) for x in q[:3]] + [cos(th)]
def slerp(a, b, t):
    c0 = dot(a, b); neg = flt(c0, ZEROW); sg = ite(neg, fl(-1.0), ONEF); c = fmul(c0, sg)
    sn = fsqrt(fsub(ONEF, fmul(c, c))); om = atan2(sn, c); near = bnot(flt(c, OME))
    k = lambda u: ite(near, u, fdiv(sin(fmul(u, om)), sn))
    s0, s1 = k(fsub(ONEF, t)), fmul(k(t), sg)
    return [fadd(fmul(x, s0), fmul(y, s1)) for x, y in zip(a, b)]
def issplat(t): return [feq(x, t[0]) for x in t]
TG = ('words', lambda s, n, m: np.repeat((s.rng.integers(0, 5, n) * 0.25 if m == 'i' else s.rng.uniform(-.5, 1.5, n)).astype(np.float32).view(np.uint32)[:, None], 4, 1))
TS = ('mix', -.5, 1.5, [0.0, 1.0, 0.5])
def splatted(*pos):
    """inputs in which the given vector parameters are splats"""
    def f(name):
        ins = []
        for j, k in enumerate(API[name]['in']):
            w = WORDS[k]; b = len(ins)
            ins += [T.var('i%d' % (b if j in pos else b + r)) for r in range(w)]
        return ins, []
    return f
def par(name, *pos): return {'param': lambda: splatted(*pos)(name)}
E('XMQuaternionSlerpV', req=lambda a, b, t: issplat(t), gens={0: QU, 1: QU, 2: TG}, abstol=1e-5, opts=par('XMQuaternionSlerpV', 2), sub=True)(lambda a, b, t: slerp(a, b, t[0]))
E('XMQuaternionSlerp', req=lambda a, b, t: [feq(t, t)], gens={0: QU, 1: QU, 2: TS}, abstol=1e-5, sub=True)(slerp)
def squad(a, b, c, d, t):
    u = fmul(fsub(t, fmul(t, t)), fl(2.0))
    return slerp(slerp(a, d, t), slerp(b, c, t), u)
G4 = {0: QU, 1: QU, 2: QU, 3: QU}
E('XMQuaternionSquadV', req=lambda a, b, c, d, t: issplat(t) + [finite(t[0]), fle(fabs_(t[0]), fl(1e10))], gens={**G4, 4: TG}, abstol=1e-4, opts=par('XMQuaternionSquadV', 4), sub=True)(lambda a, b, c, d, t: squad(a, b, c, d, t[0]))
E('XMQuaternionSquad', req=lambda a, b, c, d, t: [finite(t), fle(fabs_(t), fl(1e10))], gens={**G4, 4: TS}, abstol=1e-4)(squad)
@E('XMQuaternionSquadSetup', gens={3: QU, 4: QU, 5: QU, 6: QU}, abstol=1e-4)
def setup(_a, _b, _c, q0, q1, q2, q3):
    def flip(a, b):       # sign of a such that it is nearer to b
        return flt(dot(vadd(a, b), vadd(a, b)), dot(vsub(a, b), vsub(a, b)))
    n = vneg
    s2 = [ite(flip(q1, q2), fneg(x), x) for x in q2]
    s0 = [ite(flip(q0, q1), fneg(x), x) for x in q0]
    s3 = [ite(flip(s2, q3), fneg(x), x) for x in q3]
    i1, i2 = qinv(q1), qinv(s2)
    m = lambda a, b: qmul(b, a)
    l0, l2, l1, l3 = ln(m(i1, s0)), ln(m(i1, s2)), ln(m(i2, q1)), ln(m(i2, s3))
    k = fl(-.25)
    e02, e13 = exp(vscale(vadd(l0, l2), k)), exp(vscale(vadd(l1, l3), k))
    return [m(q1, e02), m(s2, e13), s2]
def bary(a, b, c, f, g, eps):
    s = fadd(f, g); near = eps(s)
    r = slerp(slerp(a, b, s), slerp(a, c, s), fdiv(g, s))
    return [ite(near, x, y) for x, y in zip(a, r)]
W1 = ('mix', -.2, 1, [0.0, 0.5, 0.25])
fs = lambda *x: [fle(fabs_(y), fl(1e10)) for y in x]
strict = lambda s: band(flt(s, fl(.00001)), flt(fl(-.00001), s))
E('XMQuaternionBaryCentric', req=lambda a, b, c, f, g: fs(f, g), gens={0: QU, 1: QU, 2: QU, 3: W1, 4: W1}, abstol=1e-4, sub=False)(lambda a, b, c, f, g: bary(a, b, c, f, g, strict))
inb = lambda s: fle(fabs_(s), fl(2.0 ** -16))
E('XMQuaternionBaryCentricV', req=lambda a, b, c, f, g: issplat(f) + issplat(g) + fs(f[0], g[0]), gens={0: QU, 1: QU, 2: QU, 3: TG, 4: TG}, abstol=1e-4, opts=par('XMQuaternionBaryCentricV', 3, 4), sub=False)(
    lambda a, b, c, f, g: bary(a, b, c, f[0], g[0], inb))
ANG = ('mix', -7, 7, [0.0, 3.1415927, 1.5707964])
def rotn(n, a):
    h = fmul(fl(.5), a); return [fmul(x, sin(h)) for x in n[:3]] + [cos(h)]
E('XMQuaternionRotationNormal', gens={0: 'unit3', 1: ANG}, abstol=3e-6)(rotn)
E('XMQuaternionRotationAxis', gens={1: ANG}, req=lambda v, a: [nz3(v)] + fin3(v), abstol=3e-6, sub=True)(lambda v, a: rotn(norm3(v), a))
def rpy(p, y, r):
    q = lambda k, a: [sin(half(a)) if j == k else ZEROW for j in range(3)] + [cos(half(a))]
    # roll (z) first, then pitch (x), then yaw (y)
    return qmul(q(1, y), qmul(q(0, p), q(2, r)))
E('XMQuaternionRotationRollPitchYaw', gens={0: ANG, 1: ANG, 2: ANG}, abstol=5e-6)(rpy)
E('XMQuaternionRotationRollPitchYawFromVector', gens={0: ANG}, abstol=5e-6)(lambda v: rpy(v[0], v[1], v[2]))
E('XMQuaternionToAxisAngle', gens={2: QU}, abstol=4e-6)(lambda _a, _b, q: [q, fmul(fl(2.0), acos(q[3]))])
# from a rotation matrix: plus or minus the unit quaternion whose rotation it is
def rotmat(q):
    x, y, z, w = q; two = fl(2.0); m = lambda a, b: fmul(fmul(two, a), b)
    return [[fsub(fsub(ONEF, m(y, y)), m(z, z)), fadd(m(x, y), m(w, z)), fsub(m(x, z), m(w, y)), ZEROW],
            [fsub(m(x, y), m(w, z)), fsub(fsub(ONEF, m(x, x)), m(z, z)), fadd(m(y, z), m(w, x)), ZEROW],
            [fadd(m(x, z), m(w, y)), fsub(m(y, z), m(w, x)), fsub(fsub(ONEF, m(x, x)), m(y, y)), ZEROW], [ZEROW, ZEROW, ZEROW, ONEF]]
PQ = [T.var('p%d' % k) for k in range(4)]
def rmparam():
    return flatw(rotmat(PQ)), [[PQ[0], PQ[1], PQ[2], PQ[3]]]
def rm_or(x, o):
    m = x.view(np.float32).astype(np.float64).reshape(-1, 4, 4); q = o.copy().view(np.float32).astype(np.float64)
    X, Y, Z, W = q.T
    r = np.stack([1 - 2 * (Y * Y + Z * Z), 2 * (X * Y + Z * W), 2 * (X * Z - Y * W), 2 * (X * Y - Z * W), 1 - 2 * (X * X + Z * Z), 2 * (Y * Z + X * W), 2 * (X * Z + Y * W), 2 * (Y * Z - X * W), 1 - 2 * (X * X + Y * Y)], 1)
    return ~(np.abs(r - m[:, :3, :3].reshape(-1, 9)) < 1e-5).all(1), np.ones(len(x), bool)
def qfm(M):
    a = [M[i][j] for i in range(3) for j in range(3)]
    return [T.app('qfm%d' % k, 32, *a) for k in range(4)]
E('XMQuaternionRotationMatrix', 'dep', oracle=rm_or, gens={0: 'rot'}, label='upper-left')(qfm)
add('XMQuaternionRotationMatrix', P, 'rel', lambda A, O: [('plus-or-minus', bor(conj([feq(o, p) for o, p in zip(O[0], PQ)]), conj([feq(o, fneg(p)) for o, p in zip(O[0], PQ)])))],
    opts={'param': rmparam}, gens={0: 'rot'}, oracle=rm_or, label='inverse-of-rotation', nsamp=3)
