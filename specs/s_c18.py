"""C18: ray, plane and six-plane queries"""
from specs.geom import *
P = 'C18'
def o(**kw): return dict({'lin': True, 'tmo': 30.0}, **kw)
# ---- plane classification
for n, f, u in (('BoundingSphere', plane_sphere, None), ('BoundingBox', plane_box, None), ('BoundingOrientedBox', plane_obb, slice(6, 10)), ('BoundingFrustum', lambda R, pl: plane_pts(fr_corners(R), pl), slice(3, 7))):
    uq = (lambda v, u=u: [v[u]]) if u else (lambda v: [])
    add(n + '_IntersectsPlane', P, 'real', lambda v, pl, f=f: side(*f(v, pl)), unit=lambda v, pl, uq=uq: uq(v) + [pl[:3]], gens={1: 'unit3'}, opts=o(), nsamp=3)
    add(n + '_ContainedBy', P, 'real', lambda v, *pls, f=f: by_planes(f, v, pls), unit=lambda v, *pls, uq=uq: uq(v), opts=o(), nsamp=3)
add('triangle_IntersectsPlane', P, 'real', lambda a, b, c, pl: side(*plane_pts((a, b, c), pl)), unit=lambda a, b, c, pl: [pl[:3]], gens={3: 'unit3'}, opts=o(), nsamp=3)
add('triangle_ContainedBy', P, 'real', lambda a, b, c, *pls: by_planes(plane_pts, (a, b, c), pls), opts=o(), nsamp=3)
# ---- rays: (hit, distance); distance 0 on a miss
def ray(hit, d): return [pw(hit), ite(hit, d, ZEROW)]
def sph(S, O, D, _=0):
    l = sub3(S, O); s = dot(l, D, 3); l2 = len2(l); r2 = sq(S[3]); m2 = fsub(l2, sq(s)); q = fsqrt(fsub(r2, m2))
    miss = bor(band(flt(s, ZEROW), flt(r2, l2)), flt(r2, m2))
    return ray(bnot(miss), ite(fle(l2, r2), fadd(s, q), fsub(s, q)))
add('BoundingSphere_IntersectsRay', P, 'real', sph, unit=lambda S, O, D, _: [D[:3]], gens={2: 'unit3'}, opts=o(), nsamp=4)
EPS = fl(1e-20); BIG = const(0x7f7fffff); NBIG = const(0xff7fffff)
def slabs(l, d, e, cut=False):
    """l = centre - origin in box axes, d the direction, e half sizes"""
    par = [abs_le(x, EPS) for x in d]
    t1 = [fdiv(fsub(l[k], e[k]), d[k]) for k in range(3)]; t2 = [fdiv(fadd(l[k], e[k]), d[k]) for k in range(3)]
    tn = maxl([ite(par[k], NBIG, fmin(t1[k], t2[k])) for k in range(3)]); tf = minl([ite(par[k], BIG, fmax(t1[k], t2[k])) for k in range(3)])
    if cut: return [t1, t2]
    miss = disj([flt(tf, tn), flt(tf, ZEROW)] + [band(par[k], bnot(abs_le(l[k], e[k]))) for k in range(3)])
    return ray(bnot(miss), tn)
add('BoundingBox_IntersectsRay', P, 'real', lambda b, O, D, _=0: slabs(sub3(b, O), D[:3], b[3:6]), unit=lambda b, O, D, _=0: [D[:3]], gens={2: 'unit3'}, opts=o(cuts=lambda b, O, D, _: slabs(sub3(b, O), D[:3], b[3:6], True)), nsamp=4)
def obr(b, O, D, _=0):
    A = axes(b[6:]); return slabs([dot(sub3(b, O), a, 3) for a in A], [dot(D, a, 3) for a in A], b[3:6])
def obrcut(b, O, D, _=0):
    A = axes(b[6:]); l, d = [dot(sub3(b, O), a, 3) for a in A], [dot(D, a, 3) for a in A]; return [l, d, slabs(l, d, b[3:6], True)]
add('BoundingOrientedBox_IntersectsRay', P, 'real', obr, unit=lambda b, O, D, _=0: [b[6:], D[:3]], gens={2: 'unit3'}, opts=o(cuts=obrcut), nsamp=4)
def tri(O, D, a, b, c, _=0):
    """Moeller-Trumbore: barycentric coordinates u, v and distance t of the plane hit, all times det"""
    e1, e2, s = sub3(b, a), sub3(c, a), sub3(O, a); det = dot(e1, cross(D, e2)); u = dot(s, cross(D, e2)); q = cross(s, e1); v = dot(D[:3], q); t = dot(e2, q)
    w = fsub(det, fadd(u, v))
    hit = bor(band(fle(EPS, det), conj(ge0(u, v, w, t))), band(fle(det, fneg(EPS)), conj([fle(x, ZEROW) for x in (u, v, w, t)])))
    return ray(hit, fdiv(t, det))
def tricut(O, D, a, b, c, _=0):
    e1, e2, s = sub3(b, a), sub3(c, a), sub3(O, a); q = cross(s, e1)
    return [dot(e1, cross(D, e2)), dot(s, cross(D, e2)), dot(D[:3], q), dot(e2, q)]
add('triangle_IntersectsRay', P, 'real', tri, unit=lambda O, D, *_: [D[:3]], gens={1: 'unit3'}, opts=o(cuts=tricut), nsamp=4)
def frr(R, O, D, _=0, cut=False):
    """origin inside: distance 0; otherwise the ray is clipped against the six unit planes"""
    pls = fr_planes(R); vn = [pdot(pl, O) for pl in pls]; vd = [dot(pl, D, 3) for pl in pls]; par = [abs_le(x, EPS) for x in vd]
    t = [fdiv(fneg(a), b) for a, b in zip(vn, vd)]
    if cut: return [vn, vd, t]
    near = [band(bnot(p), flt(x, ZEROW)) for p, x in zip(par, vd)]; far = [band(bnot(p), bnot(flt(x, ZEROW))) for p, x in zip(par, vd)]
    tn = maxl([NBIG] + [ite(c, x, NBIG) for c, x in zip(near, t)]); tf = minl([BIG] + [ite(c, x, BIG) for c, x in zip(far, t)])
    d = ite(fle(ZEROW, tn), tn, tf)
    clip = conj([fle(tn, tf), fle(ZEROW, d)] + [bnot(band(p, flt(ZEROW, x))) for p, x in zip(par, vn)])
    ins = fr_has_local(R, local(O, R, axes(R[3:7]))); hit = bor(ins, clip)
    return [pw(hit), ite(hit, ite(ins, ZEROW, d), ZEROW)]
add('BoundingFrustum_IntersectsRay', P, 'real', frr, unit=lambda R, O, D, _: [R[3:7], D[:3]], gens={2: 'unit3'}, req=lambda R, *_: valid_fr(R), opts=o(cuts=lambda *a: frr(*a, cut=True)), nsamp=4)
