"""C16: volume and triangle intersection"""
from specs.geom import *
P = 'C16'
LIN = {'lin': True, 'tmo': 30.0}
def o(**kw): return dict(LIN, **kw)
B1 = lambda b: pw(b)
# spheres
add('BoundingSphere_IntersectsSphere', P, 'real', lambda A, B: B1(fle(len2(sub3(A, B)), sq(fadd(A[3], B[3])))), opts=o(), nsamp=3)
add('BoundingSphere_IntersectsTriangle', P, 'real', lambda *a: B1(sphere_tri(*a)), facts=lambda S, a, b, c: tri_nondeg(a, b, c), req=lambda S, *_: ge0(S[3]), sample_req=tri_ok(4), opts=o(param=rel_param('BoundingSphere_IntersectsTriangle', [4, 0, 8, 12])), nsamp=3)
for n, sw in (('BoundingBox_IntersectsSphere', 0), ('BoundingSphere_IntersectsBox', 1)):
    add(n, P, 'real', lambda a, b, sw=sw: B1((lambda b, S: sphere_box(S, S[3], *box_lohi(b)))(*((b, a) if sw else (a, b)))), req=lambda a, b: ge0(*a[3:]) + ge0(*b[3:]), opts=o(), nsamp=3)
def obs(b, S): e = b[3:6]; return B1(sphere_box(local(S, b, axes(b[6:])), S[3], vneg(e), e))
add('BoundingOrientedBox_IntersectsSphere', P, 'real', obs, unit=lambda b, S: [b[6:]], req=lambda b, S: ge0(S[3], *b[3:6]), opts=o(), nsamp=3)
add('BoundingSphere_IntersectsOrientedBox', P, 'real', lambda S, b: obs(b, S), unit=lambda S, b: [b[6:]], req=lambda S, b: ge0(S[3], *b[3:6]), opts=o(), nsamp=3)
# boxes
def bb(a, b):
    (la, ha), (lb, hb) = box_lohi(a), box_lohi(b)
    return B1(conj([band(fle(la[k], hb[k]), fle(lb[k], ha[k])) for k in range(3)]))
add('BoundingBox_IntersectsBox', P, 'real', bb, opts=o(), nsamp=3)
def oo(a, b): return B1(obb_obb(local(b, a, axes(a[6:])), relrot(a[6:], b[6:]), a[3:6], b[3:6]))
def oocut(a, b): return [local(b, a, axes(a[6:])), relrot(a[6:], b[6:])]
add('BoundingOrientedBox_IntersectsOrientedBox', P, 'real', oo, unit=lambda a, b: [a[6:], b[6:]], req=lambda a, b: ge0(*a[3:6]) + ge0(*b[3:6]), opts=o(cuts=oocut), nsamp=5)
asO = lambda b: b[:6] + QID
add('BoundingOrientedBox_IntersectsBox', P, 'real', lambda a, b: oo(a, asO(b)), unit=lambda a, b: [a[6:]], req=lambda a, b: ge0(*a[3:6]) + ge0(*b[3:6]), opts=o(cuts=lambda a, b: oocut(a, asO(b))), nsamp=5)
add('BoundingBox_IntersectsOrientedBox', P, 'real', lambda b, a: oo(a, asO(b)), unit=lambda b, a: [a[6:]], req=lambda b, a: ge0(*a[3:6]) + ge0(*b[3:6]), opts=o(cuts=lambda b, a: oocut(a, asO(b))), nsamp=5)
# box - triangle
add('BoundingBox_IntersectsTriangle', P, 'real', lambda b, *v: B1(box_tri(b[3:], [sub3(p, b) for p in v])), facts=lambda b, *v: tri_nondeg(*v), req=lambda b, *v: ge0(*b[3:]) + [nz3(tri_n(*v))], sample_req=tri_ok(6), opts=o(param=rel_param('BoundingBox_IntersectsTriangle', [0, 6, 10, 14])), nsamp=5)
def ot(b, *v):
    A = axes(b[6:]); return B1(box_tri(b[3:6], [local(p, b, A) for p in v]))
add('BoundingOrientedBox_IntersectsTriangle', P, 'real', ot, unit=lambda b, *v: [b[6:]], req=lambda b, *v: ge0(*b[3:6]) + [nz3(tri_n(*[local(p, b, axes(b[6:])) for p in v]))], sample_req=tri_ok(10), opts=o(cuts=lambda b, *v: [local(p, b, axes(b[6:])) for p in v]), nsamp=5,
    facts=lambda b, *v: tri_nondeg(*[local(p, b, axes(b[6:])) for p in v]))
# ---- frustum
def frs(R, S): return B1(fr_sphere(R, local(S, R, axes(R[3:7])), S[3]))
frk = dict(unit=lambda R, S: [R[3:7]], req=lambda R, S: valid_fr(R) + ge0(S[3]), facts=lambda R, S: fr_edge_facts(R), nsamp=4)
add('BoundingFrustum_IntersectsSphere', P, 'real', frs, opts=o(cuts=lambda R, S: local(S, R, axes(R[3:7]))), **frk)
def swapk(k): return {n: (lambda a, b, f=f: f(b, a)) if n in ('unit', 'req', 'facts') else f for n, f in k.items()}
def sw(f): return lambda a, b: f(b, a)
add('BoundingSphere_IntersectsFrustum', P, 'real', sw(frs), opts=o(cuts=sw(lambda R, S: local(S, R, axes(R[3:7])))), **swapk(frk))
def fro(R, b): return B1(fr_obb(R, b))
frok = dict(unit=lambda R, b: [R[3:7], b[6:]], req=lambda R, b: valid_fr(R) + ge0(*b[3:6]), nsamp=4)
frocut = lambda R, b: list(obb_in_fr(R, b))
add('BoundingFrustum_IntersectsOrientedBox', P, 'real', fro, opts=o(cuts=frocut), **frok)
add('BoundingOrientedBox_IntersectsFrustum', P, 'real', sw(fro), opts=o(cuts=sw(frocut)), **swapk(frok))
frbk = dict(unit=lambda R, b: [R[3:7]], req=frok['req'], nsamp=4)
add('BoundingFrustum_IntersectsBox', P, 'real', lambda R, b: fro(R, asO(b)), opts=o(cuts=lambda R, b: frocut(R, asO(b))), **frbk)
add('BoundingBox_IntersectsFrustum', P, 'real', lambda b, R: fro(R, asO(b)), opts=o(cuts=lambda b, R: frocut(R, asO(b))), **swapk(frbk))
frt = lambda R, *v: [local(p, R, axes(R[3:7])) for p in v]
add('BoundingFrustum_IntersectsTriangle', P, 'real', lambda R, *v: B1(fr_tri(R, v)), unit=lambda R, *v: [R[3:7]], req=lambda R, *v: valid_fr(R), sample_req=tri_ok(13), opts=o(cuts=lambda R, *v: frt(R, *v)), nsamp=4)
def ffcut(B, A): return local(A, B, axes(B[3:7]))
add('BoundingFrustum_IntersectsFrustum', P, 'real', lambda B, A: B1(fr_fr(B, A)), unit=lambda B, A: [B[3:7], A[3:7]], req=lambda B, A: valid_fr(A) + valid_fr(B), opts=o(cuts=ffcut, cut_units=lambda B, A: [rel_q(B, A)]), nsamp=4)
# lemma: the edges of a valid frustum have positive length (used as a fact by the sphere tests)
def edgelemma(A, O):
    R = [T.var('l_R%d' % k) for k in range(13)]
    return [('edge%d' % k, bor(bnot(conj(valid_fr(R))), flt(ZEROW, t))) for k, (t, _) in enumerate(fr_edge_facts(R))]
add('BoundingFrustum_IntersectsSphere', P, 'rel', edgelemma, oracle=lambda x, w: (np.zeros(len(x), bool), np.ones(len(x), bool)), label='edge-lemma', unit=frk['unit'], req=frk['req'])
# ---- two triangles (Devillers-Guigue): signed distances of each triangle's vertices to the other's plane (magnitudes under 1e-20 count as zero)
TEPS = fl(1e-20)
def tdist(n, o, ps):
    ds = [dot(n, sub3(p, o), 3) for p in ps]; return [ite(flt(fabs_(d), TEPS), ZEROW, d) for d in ds], conj([flt(fabs_(d), TEPS) for d in ds])
def one_side(ds): return bor(conj([flt(d, ZEROW) for d in ds]), conj([flt(ZEROW, d) for d in ds]))
def coplanar_sep(t, n, other):
    """some edge of t has the other triangle wholly on its outer side (n the normal of t)"""
    return disj([conj([fle(dot(L, p, 3), dot(L, q, 3)) for q in other]) for k in range(3) for p in [t[k]] for L in [cross(sub3(t[(k + 1) % 3], t[k]), n)]])
def lone(ds, t):
    """(condition, vertices, positive): the vertex alone on its side of the plane first, wound so that it counts as positive"""
    out, prev = [], []
    for a, b, c in ((0, 1, 2), (1, 2, 0), (2, 0, 1)):
        up = bor(band(fle(ZEROW, ds[a]), band(flt(ds[b], ZEROW), flt(ds[c], ZEROW))), band(flt(ZEROW, ds[a]), band(fle(ds[b], ZEROW), fle(ds[c], ZEROW))))
        dn = bor(band(fle(ds[a], ZEROW), band(flt(ZEROW, ds[b]), flt(ZEROW, ds[c]))), band(flt(ds[a], ZEROW), band(fle(ZEROW, ds[b]), fle(ZEROW, ds[c]))))
        for cond, vs, pos in ((up, (t[a], t[b], t[c]), True), (dn, (t[a], t[c], t[b]), False)):
            out.append((conj([cond] + [bnot(x) for x in prev]), vs, pos)); prev.append(cond)
    return out
def tri_tri(*v):
    A, B = [x[:3] for x in v[:3]], [x[:3] for x in v[3:]]
    n1, n2 = tri_n(*A), tri_n(*B)
    dB, zB = tdist(n1, A[0], B); dA, zA = tdist(n2, B[0], A)
    over = []
    for ca, a, pa in lone(dA, A):
        for cb, b, pb in lone(dB, B):
            d = sub3(a[0], b[0]) if pa == pb else sub3(b[0], a[0])
            v0 = dot(d, cross(sub3(b[2], b[0]), sub3(a[2], a[0])), 3); v1 = dot(d, cross(sub3(b[1], b[0]), sub3(a[1], a[0])), 3)
            over.append(conj([ca, cb, fle(v0, ZEROW), fle(ZEROW, v1)]))
    return band(bnot(bor(one_side(dB), one_side(dA))), ite(bor(zA, zB), bnot(bor(coplanar_sep(A, n1, B), coplanar_sep(B, n2, A))), disj(over)))
TT = 'triangle_IntersectsTriangle'
add(TT, P, 'real', lambda *v: B1(tri_tri(*v)), req=lambda *v: [nz3(tri_n(*v[:3])), nz3(tri_n(*v[3:]))], sample_req=tri_ok(0, 12), opts=o(tmo=120.0, param=rel_param(TT, [0, 4, 8, 12, 16, 20])), nsamp=4)
