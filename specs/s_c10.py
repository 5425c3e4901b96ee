"""C10: matrix constructors"""
from specs.lib import *
from specs.s_c12 import rotmat, rpy, rotn
P = 'C10'
def E(names, mode='real', **kw): return ens(names, P, mode, **kw)
Z, O = ZEROW, ONEF
def scaling(x, y, z): return [[x, Z, Z, Z], [Z, y, Z, Z], [Z, Z, z, Z], IDENT[3]]
def transl(x, y, z): return IDENT[:3] + [[x, y, z, O]]
E('XMMatrixScaling', 'bits')(scaling)
E('XMMatrixScalingFromVector', 'bits')(lambda v: scaling(*v[:3]))
E('XMMatrixTranslation', 'bits')(transl)
E('XMMatrixTranslationFromVector', 'bits')(lambda v: transl(*v[:3]))
ANG = ('mix', -7, 7, [0.0, 3.1415927, 1.5707964])
def rx(a, s=sin, c=cos): return [IDENT[0], [Z, c(a), s(a), Z], [Z, fneg(s(a)), c(a), Z], IDENT[3]]
def ry(a, s=sin, c=cos): return [[c(a), Z, fneg(s(a)), Z], IDENT[1], [s(a), Z, c(a), Z], IDENT[3]]
def rz(a, s=sin, c=cos): return [[c(a), s(a), Z, Z], [fneg(s(a)), c(a), Z, Z], IDENT[2], IDENT[3]]
for ax, f in (('X', rx), ('Y', ry), ('Z', rz)): E('XMMatrixRotation' + ax, gens={0: ANG}, abstol=2e-6)(lambda a, f=f: f(a))
def rnormal(n, a):
    s, c = sin(a), cos(a); t = fsub(O, c); x, y, z = n[:3]
    m = lambda p, q: fmul(fmul(t, p), q)
    return [[fadd(m(x, x), c), fadd(m(x, y), fmul(s, z)), fsub(m(x, z), fmul(s, y)), Z],
            [fsub(m(x, y), fmul(s, z)), fadd(m(y, y), c), fadd(m(y, z), fmul(s, x)), Z],
            [fadd(m(x, z), fmul(s, y)), fsub(m(y, z), fmul(s, x)), fadd(m(z, z), c), Z], IDENT[3]]
E('XMMatrixRotationNormal', gens={0: 'unit3', 1: ANG}, abstol=3e-6)(rnormal)
E('XMMatrixRotationAxis', gens={1: ANG}, req=lambda v, a: [nz3(v)] + fin3(v), abstol=3e-6, sub=True)(lambda v, a: rnormal(norm3(v), a))
E('XMMatrixRotationQuaternion')(rotmat)
# for a unit quaternion the rows are the rotated axes
from specs.lib import rotate
add('XMMatrixRotationQuaternion', P, 'real', lambda q: [rotate(e[:3], q)[:3] + [Z] for e in IDENT[:3]] + [IDENT[3]], unit=lambda q: [q], gens={0: 'unit4'}, label='rotates', abstol=5e-6)
# double angle: sin a = 2 sin(a/2) cos(a/2), cos a = 1 - 2 sin(a/2)^2
s2 = lambda a: fmul(fl(2.0), fmul(sin(half(a)), cos(half(a))))
c2 = lambda a: fsub(O, fmul(fl(2.0), fmul(sin(half(a)), sin(half(a)))))
def mrpy(p, y, r): return mmul4(mmul4(rz(r, s2, c2), rx(p, s2, c2)), ry(y, s2, c2))
E('XMMatrixRotationRollPitchYaw', gens={0: ANG, 1: ANG, 2: ANG}, abstol=1e-5)(mrpy)
E('XMMatrixRotationRollPitchYawFromVector', gens={0: ANG}, abstol=1e-5)(lambda v: mrpy(*v[:3]))
def T3(v, k=3): return transl(*[v[i] if i < k else Z for i in range(3)])
def TN(v, k=3): return transl(*[fneg(v[i]) if i < k else Z for i in range(3)])
def chain(*ms):
    r = ms[0]
    for m in ms[1:]: r = mmul4(r, m)
    return r
def sc2(s): return scaling(s[0], s[1], O)
Q = 'unit4'
E('XMMatrixAffineTransformation', gens={2: Q})(lambda s, ro, q, t: chain(scaling(*s[:3]), TN(ro), rotmat(q), T3(ro), T3(t)))
E('XMMatrixAffineTransformation2D', gens={2: ANG}, abstol=1e-5)(lambda s, ro, a, t: chain(sc2(s), TN(ro, 2), rz(a), T3(ro, 2), T3(t, 2)))
E('XMMatrixTransformation', gens={1: Q, 4: Q})(lambda so, sq, s, ro, q, t: chain(TN(so), transp(rotmat(sq)), scaling(*s[:3]), rotmat(sq), T3(so), TN(ro), rotmat(q), T3(ro), T3(t)))
E('XMMatrixTransformation2D', gens={1: ANG, 4: ANG}, abstol=2e-5)(lambda so, sa, s, ro, a, t: chain(TN(so, 2), transp(rz(sa)), sc2(s), rz(sa), T3(so, 2), TN(ro, 2), rz(a), T3(ro, 2), T3(t, 2)))
def dadd(M, f): return [[f(i, j) for j in range(4)] for i in range(4)]
plreq = lambda p, *a: [nz3(p)] + [finite(x) for x in p]
@E('XMMatrixReflect', req=plreq)
def _(p):
    n = normplane(p)
    return [[fsub(IDENT[i][j], fmul(fmul(fl(2.0), n[i]), n[j])) if j < 3 else fadd(IDENT[i][j], fmul(n[i], Z)) for j in range(4)] for i in range(4)]
@E('XMMatrixShadow', req=plreq)
def _(p, l):
    n = normplane(p); d = dot(n, l)
    return [[fsub(d if i == j else Z, fmul(n[i], l[j])) for j in range(4)] for i in range(4)]
def lookto(e, d, u, sg=1):
    z = norm3(d if sg > 0 else vneg(d)); x = norm3(cross(u, z) + [Z]); y = cross(z, x)
    ne = vneg(e)
    return [[x[k], y[k], z[k], Z] for k in range(3)] + [[dot(x, ne, 3), dot(y, ne, 3), dot(z, ne, 3), O]]
dirreq = lambda d: [nz3(d)] + fin3(d)
E('XMMatrixLookToLH', req=lambda e, d, u: dirreq(d) + dirreq(u), sub=True)(lambda e, d, u: lookto(e, d, u))
E('XMMatrixLookToRH', req=lambda e, d, u: dirreq(d) + dirreq(u), sub=True)(lambda e, d, u: lookto(e, d, u, -1))
E('XMMatrixLookAtLH', req=lambda e, f, u: dirreq(vsub(f, e)) + dirreq(u))(lambda e, f, u: lookto(e, vsub(f, e), u))
E('XMMatrixLookAtRH', req=lambda e, f, u: dirreq(vsub(e, f)) + dirreq(u))(lambda e, f, u: lookto(e, vsub(e, f), u))
e5 = fl(.00001)
far = lambda a, b=ZEROW, e=e5: flt(e, fabs_(fsub(a, b)))
POSG = ('mix', .1, 5, [1.0, 2.0]); FARG = ('mix', 6, 100, [10.0])
def zpart(n, f, rh, persp):
    if persp:
        r = fdiv(f, fsub(f, n) if not rh else fsub(n, f))
        return r, (fneg(fmul(r, n)) if not rh else fmul(r, n))
    r = fdiv(O, fsub(f, n) if not rh else fsub(n, f))
    return r, (fneg(fmul(r, n)) if not rh else fmul(r, n))
for hand in ('LH', 'RH'):
    rh = hand == 'RH'
    w = fl(-1.0) if rh else O
    def per(sx, sy, n, f, ox=Z, oy=Z, rh=rh, w=w):
        a, b = zpart(n, f, rh, True)
        return [[sx, Z, Z, Z], [Z, sy, Z, Z], [ox, oy, a, w], [Z, Z, b, Z]]
    nf = lambda n, f: [flt(Z, n), flt(Z, f), far(f, n)]
    E('XMMatrixPerspective' + hand, req=lambda vw, vh, n, f: nf(n, f) + [far(vw), far(vh)], gens={2: POSG, 3: FARG})(lambda vw, vh, n, f, per=per: per(fdiv(fmul(fl(2.0), n), vw), fdiv(fmul(fl(2.0), n), vh), n, f))
    def fov(a, asp, n, f, per=per):
        h = fdiv(cos(half(a)), sin(half(a))); return per(fdiv(h, asp), h, n, f)
    E('XMMatrixPerspectiveFov' + hand, req=lambda a, asp, n, f: nf(n, f) + [flt(fmul(e5, fl(2.0)), fabs_(a)), far(asp)], gens={0: ('mix', .3, 2.8, [1.0]), 1: POSG, 2: POSG, 3: FARG}, reltol=1e-5)(fov)
    def off(l, r, b, t, n, f, per=per, rh=rh):
        tn = fmul(fl(2.0), n); dx, dy = fsub(r, l), fsub(t, b); s = (lambda x: x) if rh else fneg
        return per(fdiv(tn, dx), fdiv(tn, dy), n, f, s(fdiv(fadd(l, r), dx)), s(fdiv(fadd(t, b), dy)))
    E('XMMatrixPerspectiveOffCenter' + hand, req=lambda l, r, b, t, n, f: nf(n, f) + [far(r, l), far(t, b)], gens={4: POSG, 5: FARG})(off)
    def ortho(vw, vh, n, f, rh=rh):
        a, b = zpart(n, f, rh, False)
        return [[fdiv(fl(2.0), vw), Z, Z, Z], [Z, fdiv(fl(2.0), vh), Z, Z], [Z, Z, a, Z], [Z, Z, b, O]]
    E('XMMatrixOrthographic' + hand, req=lambda vw, vh, n, f: [far(vw), far(vh), far(f, n)])(ortho)
