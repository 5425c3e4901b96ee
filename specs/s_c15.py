"""C15: containment queries"""
from specs.geom import *
P = 'C15'
LIN = {'lin': True, 'tmo': 30.0}
def o(**kw): return dict(LIN, **kw)
# ---- points
add('BoundingSphere_ContainsPoint', P, 'real', lambda S, p: ite(fle(len2(sub3(p, S)), sq(S[3])), CONT, DISJ), opts=o(), nsamp=3)
add('BoundingBox_ContainsPoint', P, 'real', lambda b, p: ite(conj([abs_le(fsub(p[k], b[k]), b[3 + k]) for k in range(3)]), CONT, DISJ), opts=o(), nsamp=3)
def obb_pt(b, p): return conj([abs_le(x, b[3 + k]) for k, x in enumerate(local(p, b, axes(b[6:])))])
add('BoundingOrientedBox_ContainsPoint', P, 'real', lambda b, p: ite(obb_pt(b, p), CONT, DISJ), unit=lambda b, p: [b[6:]], opts=o(), nsamp=3)
add('BoundingFrustum_ContainsPoint', P, 'real', lambda R, p: ite(fr_has_local(R, local(p, R, axes(R[3:7]))), CONT, DISJ), unit=lambda R, p: [R[3:7]], req=lambda R, p: valid_fr(R), opts=o(), nsamp=3)
# ---- spheres
def ss(A, B):
    d2 = len2(sub3(A, B)); s = fadd(A[3], B[3]); d = fsub(A[3], B[3])
    return contain(fle(d2, sq(s)), band(fle(ZEROW, d), fle(d2, sq(d))))
add('BoundingSphere_ContainsSphere', P, 'real', ss, req=lambda A, B: ge0(A[3], B[3]), opts=o(), nsamp=3)
def bs(b, S):
    lo, hi = box_lohi(b)
    return contain(sphere_box(S, S[3], lo, hi), conj([band(fle(fadd(lo[k], S[3]), S[k]), fle(fadd(S[k], S[3]), hi[k])) for k in range(3)]))
add('BoundingBox_ContainsSphere', P, 'real', bs, req=lambda b, S: ge0(*b[3:]) + [flt(ZEROW, S[3])], opts=o(), nsamp=3)
# ---- boxes
def sb(S, b):
    lo, hi = box_lohi(b)
    return contain(sphere_box(S, S[3], lo, hi), conj([fle(len2(sub3(p, S)), sq(S[3])) for p in box_corners(b)]))
add('BoundingSphere_ContainsBox', P, 'real', sb, req=lambda S, b: ge0(S[3], *b[3:]), opts=o(), nsamp=3)
def bb(a, b):
    (la, ha), (lb, hb) = box_lohi(a), box_lohi(b)
    return contain(conj([band(fle(la[k], hb[k]), fle(lb[k], ha[k])) for k in range(3)]), conj([band(fle(la[k], lb[k]), fle(hb[k], ha[k])) for k in range(3)]))
add('BoundingBox_ContainsBox', P, 'real', bb, req=lambda a, b: ge0(*a[3:]) + ge0(*b[3:]), opts=o(), nsamp=3)
def so(S, b):
    A = axes(b[6:]); p = local(S, b, A); e = b[3:6]
    return contain(sphere_box(p, S[3], vneg(e), e), conj([fle(len2(sub3(p, S)), sq(S[3])) for p in obb_corners(b)]))
add('BoundingSphere_ContainsOrientedBox', P, 'real', so, unit=lambda S, b: [b[6:]], req=lambda S, b: ge0(S[3], *b[3:6]), opts=o(), nsamp=3)
def st(S, a, b, c):
    return contain(sphere_tri(S, a, b, c), conj([fle(len2(sub3(p, S)), sq(S[3])) for p in (a, b, c)]))
add('BoundingSphere_ContainsTriangle', P, 'real', st, facts=lambda S, a, b, c: tri_nondeg(a, b, c), req=lambda S, *_: ge0(S[3]), sample_req=tri_ok(4), opts=o(param=rel_param('BoundingSphere_ContainsTriangle', [4, 0, 8, 12])), nsamp=3)
# ---- by separating axes (DISJOINT exactly when the volumes do not meet), CONTAINS when every corner is inside
from specs import s_c16 as I
def cont(inter, inside): return contain(bnot(eq(inter, const(0))), inside)
inbox = lambda e, p: conj([abs_le(p[k], e[k]) for k in range(3)])
def bt(b, *v): return cont(pw(box_tri(b[3:], [sub3(p, b) for p in v])), conj([inbox(b[3:], sub3(p, b)) for p in v]))
add('BoundingBox_ContainsTriangle', P, 'real', bt, req=lambda b, *v: ge0(*b[3:]) + [nz3(tri_n(*v))], sample_req=tri_ok(6), opts=o(param=rel_param('BoundingBox_ContainsTriangle', [0, 6, 10, 14])), nsamp=5)
def ot(b, *v):
    A = axes(b[6:]); l = [local(p, b, A) for p in v]
    return cont(pw(box_tri(b[3:6], l)), conj([inbox(b[3:6], p) for p in l]))
olv = lambda b, *v: [local(p, b, axes(b[6:])) for p in v]
add('BoundingOrientedBox_ContainsTriangle', P, 'real', ot, unit=lambda b, *v: [b[6:]], req=lambda b, *v: ge0(*b[3:6]) + [nz3(tri_n(*olv(b, *v)))], sample_req=tri_ok(10), opts=o(cuts=olv), nsamp=5)
def bo(b, x):
    """box b contains oriented box x"""
    return cont(I.oo(x, I.asO(b)), conj([inbox(b[3:], sub3(p, b)) for p in obb_corners(x)]))
add('BoundingBox_ContainsOrientedBox', P, 'real', bo, unit=lambda b, x: [x[6:]], req=lambda a, b: ge0(*a[3:6]) + ge0(*b[3:6]), opts=o(cuts=lambda b, x: [I.oocut(x, I.asO(b)), axes(x[6:])]), nsamp=5)
def oo(a, b):
    # corners of b in the frame of a
    return cont(I.oo(a, b), conj([inbox(a[3:6], local(p, a, axes(a[6:]))) for p in obb_corners(b)]))
add('BoundingOrientedBox_ContainsOrientedBox', P, 'real', oo, unit=lambda a, b: [a[6:], b[6:]], req=lambda a, b: ge0(*a[3:6]) + ge0(*b[3:6]), opts=o(cuts=I.oocut), nsamp=5)
add('BoundingOrientedBox_ContainsBox', P, 'real', lambda a, b: oo(a, I.asO(b)), unit=lambda a, b: [a[6:]], req=lambda a, b: ge0(*a[3:6]) + ge0(*b[3:6]), opts=o(cuts=lambda a, b: I.oocut(a, I.asO(b))), nsamp=5)
def os_(b, S):
    e = b[3:6]; p = local(S, b, axes(b[6:])); r = S[3]
    return contain(sphere_box(p, r, vneg(e), e), conj([band(fle(fadd(p[k], r), e[k]), fle(fneg(e[k]), fsub(p[k], r))) for k in range(3)]))
add('BoundingOrientedBox_ContainsSphere', P, 'real', os_, unit=lambda b, S: [b[6:]], req=lambda b, S: ge0(S[3], *b[3:6]), opts=o(cuts=lambda b, S: local(S, b, axes(b[6:]))), nsamp=3)
# ---- frustum containment is decided plane by plane
FU = lambda R, *_: [R[3:7]]
add('BoundingFrustum_ContainsSphere', P, 'real', lambda R, S: by_planes(plane_sphere, S, fr_planes(R)), unit=FU, req=lambda R, S: valid_fr(R) + ge0(S[3]), opts=o(), nsamp=3)
add('BoundingFrustum_ContainsBox', P, 'real', lambda R, b: by_planes(plane_box, b, fr_planes(R)), unit=FU, req=lambda R, b: valid_fr(R) + ge0(*b[3:]), opts=o(), nsamp=3)
add('BoundingFrustum_ContainsOrientedBox', P, 'real', lambda R, b: by_planes(plane_obb, b, fr_planes(R)), unit=lambda R, b: [R[3:7], b[6:]], req=lambda R, b: valid_fr(R) + ge0(*b[3:6]), opts=o(), nsamp=3)
add('BoundingFrustum_ContainsTriangle', P, 'real', lambda R, *v: by_planes(plane_pts, v, fr_planes(R)), unit=FU, req=lambda R, *v: valid_fr(R), opts=o(), nsamp=3)
add('BoundingFrustum_ContainsFrustum', P, 'real', lambda R, Q: by_planes(plane_pts, fr_corners(Q), fr_planes(R)), unit=lambda R, Q: [R[3:7], Q[3:7]], req=lambda R, Q: valid_fr(R) + valid_fr(Q), opts=o(), nsamp=3)
# ---- volumes containing a frustum: DISJOINT when they do not meet, CONTAINS when all eight corners are inside
def sf(S, R): return cont(I.frs(R, S), conj([fle(len2(sub3(p, S)), sq(S[3])) for p in fr_corners(R)]))
add('BoundingSphere_ContainsFrustum', P, 'real', sf, opts=o(cuts=lambda S, R: local(S, R, axes(R[3:7]))), **I.swapk(I.frk))
def bf(b, R): return cont(I.fro(R, I.asO(b)), conj([inbox(b[3:], sub3(p, b)) for p in fr_corners(R)]))
add('BoundingBox_ContainsFrustum', P, 'real', bf, opts=o(cuts=lambda b, R: I.frocut(R, I.asO(b))), **I.swapk(I.frbk))
def of(b, R): return cont(I.fro(R, b), conj([inbox(b[3:6], local(p, b, axes(b[6:]))) for p in fr_corners(R)]))
add('BoundingOrientedBox_ContainsFrustum', P, 'real', of, opts=o(cuts=lambda b, R: I.frocut(R, b)), **I.swapk(I.frok))
