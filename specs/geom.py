"""geometric definitions shared by the collision contracts (ideal reals)

sphere [c3, r]; box [c3, e3]; oriented box [c3, e3, q4]; frustum [o3, q4, right, left, top, bottom, near, far]"""
from specs.lib import *
DISJ, INTER, CONT = const(0), const(1), const(2)
FRONT, CROSS, BACK = const(0), const(1), const(2)
def sq(x): return fmul(x, x)
def len2(v): return dot(v, v, 3)
def sub3(a, b): return vsub(a[:3], b[:3])
def addv(*vs):
    r = vs[0][:3]
    for v in vs[1:]: r = vadd(r, v[:3])
    return r
def pw(b): return mk_zext(b, 32)
def contain(inter, inside): return ite(inter, ite(inside, CONT, INTER), DISJ)
AX = [[ONEF, ZEROW, ZEROW], [ZEROW, ONEF, ZEROW], [ZEROW, ZEROW, ONEF]]
def axes(q):
    """images of the coordinate axes under the rotation q"""
    x, y, z, w = q
    d = lambda t: fmul(fl(2.0), t)
    return [[fsub(ONEF, d(fadd(sq(y), sq(z)))), d(fadd(fmul(x, y), fmul(z, w))), d(fsub(fmul(x, z), fmul(y, w)))],
            [d(fsub(fmul(x, y), fmul(z, w))), fsub(ONEF, d(fadd(sq(x), sq(z)))), d(fadd(fmul(y, z), fmul(x, w)))],
            [d(fadd(fmul(x, z), fmul(y, w))), d(fsub(fmul(y, z), fmul(x, w))), fsub(ONEF, d(fadd(sq(x), sq(y))))]]
def lcomb(ks, vs):
    r = vscale(vs[0][:3], ks[0])
    for k, v in zip(ks[1:], vs[1:]): r = vadd(r, vscale(v[:3], k))
    return r
def local(p, c, A): 
    """coordinates of p in the frame (c, A)"""
    d = sub3(p, c); return [dot(d, a, 3) for a in A]
SIGNS = [(-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1), (-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1)]
def sg(x, s): return x if s > 0 else fneg(x)
def box_corners(b, A=AX):
    c, e = b[:3], b[3:6]
    if A is AX: return [[fadd(c[k], sg(e[k], s[k])) for k in range(3)] for s in SIGNS]
    return [addv(c, *[vscale(A[k], sg(e[k], s[k])) for k in range(3)]) for s in SIGNS]
def obb_corners(o): return box_corners(o, axes(o[6:]))
# frustum
def fr_dirs(R):
    """corner directions left-top, right-top, right-bottom, left-bottom (local, at z = 1)"""
    r, l, t, b = R[7:11]
    return [[l, t, ONEF], [r, t, ONEF], [r, b, ONEF], [l, b, ONEF]]
def fr_local(R): return [vscale(d, k) for k in (R[11], R[12]) for d in fr_dirs(R)]
def fr_corners(R):
    A = axes(R[3:7]); return [addv(R[:3], lcomb(p, A)) for p in fr_local(R)]
def fr_planes_local(R):
    r, l, t, b, n, f = R[7:13]
    return [[ZEROW, ZEROW, fl(-1.0), n], [ZEROW, ZEROW, ONEF, fneg(f)], [ONEF, ZEROW, fneg(r), ZEROW], [fl(-1.0), ZEROW, l, ZEROW], [ZEROW, ONEF, fneg(t), ZEROW], [ZEROW, fl(-1.0), b, ZEROW]]
def pdot(pl, p): return fsum([fmul(pl[0], p[0]), fmul(pl[1], p[1]), fmul(pl[2], p[2]), pl[3]])
def fr_has_local(R, p): return conj([fle(pdot(pl, p), ZEROW) for pl in fr_planes_local(R)])
def fr_planes(R):
    """unit world planes: near, far, right, left, top, bottom"""
    A = axes(R[3:7]); out = []
    for pl in fr_planes_local(R):
        n = lcomb(pl, A); d = fsub(pl[3], dot(n, R, 3)); L = length3(pl)
        out.append([fdiv(x, L) for x in n + [d]])
    return out
def ge0(*xs): return [fle(ZEROW, x) for x in xs]
def valid_fr(R):
    r, l, t, b, n, f = R[7:13]
    return [flt(l, r), flt(b, t), flt(ZEROW, n), flt(n, f)]
# point-segment, triangle
def seg_d2(a, b, p):
    d = sub3(b, a); w = sub3(p, a); pr = dot(w, d); L = len2(d)
    return ite(flt(pr, ZEROW), len2(w), ite(flt(L, pr), len2(sub3(p, b)), fsub(len2(w), fdiv(sq(pr), L))))
def tri_nondeg(a, b, c):
    return [(len2(cross(sub3(b, a), sub3(c, a))), '>0'), (len2(sub3(b, a)), '>0'), (len2(sub3(c, a)), '>0'), (len2(sub3(c, b)), '>0')]
def sphere_tri(S, a, b, c):
    n = cross(sub3(b, a), sub3(c, a)); d = sub3(S, a); N2 = len2(n); h = dot(d, n); r2 = sq(S[3])
    plane = abs_le(fdiv(h, fsqrt(N2)), S[3])
    ins = conj([fle(ZEROW, dot(cross(sub3(v, u), sub3(S, u)), n)) for u, v in ((a, b), (b, c), (c, a))])
    return band(plane, disj([ins] + [fle(seg_d2(u, v, S), r2) for u, v in ((a, b), (b, c), (c, a))]))
def nearest_d2(S, lo, hi):
    return fsum([ite(flt(x, l), sq(fsub(x, l)), ite(flt(h, x), sq(fsub(x, h)), ZEROW)) for x, l, h in zip(S, lo, hi)])
def sphere_box(c, r, lo, hi): return fle(nearest_d2(c, lo, hi), sq(r))
def abs_le(x, e): return band(fle(x, e), fle(fneg(e), x))
def minl(xs):
    r = xs[0]
    for x in xs[1:]: r = fmin(r, x)
    return r
def maxl(xs):
    r = xs[0]
    for x in xs[1:]: r = fmax(r, x)
    return r
def box_lohi(b): return [fsub(b[k], b[3 + k]) for k in range(3)], [fadd(b[k], b[3 + k]) for k in range(3)]
# planes
def side(out, ins): return ite(out, FRONT, ite(ins, BACK, CROSS))
def band_of(dist, rad): return flt(rad, dist), flt(dist, fneg(rad))
def plane_sphere(S, pl): return band_of(pdot(pl, S), S[3])
def plane_box(b, pl): return band_of(pdot(pl, b), fsum([fmul(b[3 + k], fabs_(pl[k])) for k in range(3)]))
def plane_obb(o, pl):
    A = axes(o[6:]); return band_of(pdot(pl, o), fsum([fmul(o[3 + k], fabs_(dot(pl, A[k], 3))) for k in range(3)]))
def plane_pts(ps, pl):
    ds = [pdot(pl, p) for p in ps]
    return conj([flt(ZEROW, d) for d in ds]), conj([flt(d, ZEROW) for d in ds])
def by_planes(f, obj, pls):
    oi = [f(obj, pl) for pl in pls]
    return ite(disj([o for o, _ in oi]), DISJ, ite(conj([i for _, i in oi]), CONT, INTER))
def f64(w): return np.ascontiguousarray(w).view(np.float32).astype(np.float64)
def tri_ok(*offs):
    """sampled triangles (vertices of 4 words from each offset) are not degenerate"""
    def f(x):
        ok = np.ones(len(x), bool)
        with np.errstate(all='ignore'): big = np.abs(f64(x)).max(1)
        for i in offs:
            a, b, c = [f64(x[:, i + 4 * k:i + 4 * k + 3]) for k in range(3)]
            with np.errstate(all='ignore'): n = np.linalg.norm(np.cross(b - a, c - a), axis=1); ok &= (n > 1e-3 * np.linalg.norm(b - a, axis=1) * np.linalg.norm(c - a, axis=1)) & (n > 1e-4 * big * big)
        return ok
    return f
def rel_vars(tag): return [T.var('%s%d' % (tag, k)) for k in range(3)]
def rel_param(name, spans, origin=None, unit=(), reqs=()):
    """translation: the 3-word points at the given offsets are (reference point + offset variables); every input is of this form"""
    def f():
        ins = [T.var('i%d' % k) for k in range(API[name]['nin'])]
        o = ins[spans[0]:spans[0] + 3]
        for j, s in enumerate(spans[1:]):
            for k in range(3): ins[s + k] = fadd(o[k], T.var('d%d_%d' % (j, k)))
        return ins, [[ins[i] for i in u] for u in unit], []
    return f
# separating axes: r = support radius of the box/oriented box, strict separation
def sep_box_pts(e, pts, L):
    """axis L separates the box |x_k| <= e_k from the convex hull of pts"""
    r = fsum([fmul(e[k], fabs_(L[k])) for k in range(3)]); ps = [dot(L, p, 3) for p in pts]
    return bor(conj([flt(r, p) for p in ps]), conj([flt(p, fneg(r)) for p in ps]))
def box_tri(e, vs):
    """box |x_k| <= e_k and a triangle: no face normal, triangle normal or edge cross product separates"""
    ed = [sub3(vs[1], vs[0]), sub3(vs[2], vs[1]), sub3(vs[0], vs[2])]
    ax = AX + [cross(ed[0], sub3(vs[2], vs[0]))] + [cross(a, u) for u in ed for a in AX]
    return bnot(disj([sep_box_pts(e, vs, L) for L in ax]))
def relrot(qa, qb):
    A, B = axes(qa), axes(qb); return [[dot(A[i], B[j], 3) for j in range(3)] for i in range(3)]
def obb_obb(t, R, a, b):
    """boxes with half sizes a, b; t the offset of the second in the frame of the first; R[i][j] = A_i . B_j.  15 axes: 6 face normals, 9 edge cross products"""
    ab = fabs_
    sep = [flt(fadd(a[i], fsum([fmul(b[j], ab(R[i][j])) for j in range(3)])), ab(t[i])) for i in range(3)]
    sep += [flt(fadd(b[j], fsum([fmul(a[i], ab(R[i][j])) for i in range(3)])), ab(fsum([fmul(t[i], R[i][j]) for i in range(3)]))) for j in range(3)]
    for i in range(3):
        i1, i2 = (i + 1) % 3, (i + 2) % 3
        for j in range(3):
            j1, j2 = (j + 1) % 3, (j + 2) % 3
            ra = fadd(fmul(a[i1], ab(R[i2][j])), fmul(a[i2], ab(R[i1][j]))); rb = fadd(fmul(b[j1], ab(R[i][j2])), fmul(b[j2], ab(R[i][j1])))
            sep.append(flt(fadd(ra, rb), ab(fsub(fmul(t[i2], R[i1][j]), fmul(t[i1], R[i2][j])))))
    return bnot(disj(sep))
QID = [ZEROW, ZEROW, ZEROW, ONEF]
def tri_n(a, b, c): return cross(sub3(b, a), sub3(c, a))
# frustum
FR_ADJ = [[2, 3, 4, 5], [2, 3, 4, 5], [0, 1, 4, 5], [0, 1, 4, 5], [0, 1, 2, 3], [0, 1, 2, 3]]
FR_EDGES = [(1, 2), (0, 3), (0, 1), (2, 3), (5, 6), (4, 7), (4, 5), (6, 7), (1, 5), (2, 6), (0, 4), (3, 7)]
def fr_local_unit(R): 
    out = []
    for pl in fr_planes_local(R):
        L = length3(pl); out.append([fdiv(x, L) for x in pl] if pl[0] is not ZEROW or pl[1] is not ZEROW else pl)
    return out
def fr_sphere(R, p, r):
    """centre p (frustum space): not beyond any plane by more than r, and inside, or nearest to a face, or within r of an edge"""
    pls = fr_local_unit(R); d = [pdot(pl, p) for pl in pls]; far = disj([flt(r, x) for x in d]); ins = conj([fle(x, ZEROW) for x in d])
    face = [band(flt(ZEROW, d[i]), conj([fle(pdot(pls[j], vsub(p, vscale(pls[i][:3], d[i]))), ZEROW) for j in FR_ADJ[i]])) for i in range(6)]
    C = fr_local(R); edge = [fle(seg_d2(C[a], C[b], p), sq(r)) for a, b in FR_EDGES]
    return band(bnot(far), disj([ins] + face + edge))
def fr_edge_facts(R):
    C = fr_local(R); return [(len2(sub3(C[b], C[a])), '>0') for a, b in FR_EDGES]

def fr_local_code(R):
    """corner directions of the frustum, frustum space"""
    return [[R[k], R[j], ONEF] for k, j in ((7, 9), (7, 10), (8, 9), (8, 10))]
def fr_edge_dirs(R):
    """directions of the frustum's edges: four slanted ones, horizontal, vertical"""
    d = fr_local_code(R); return d + [sub3(d[0], d[2]), sub3(d[3], d[2])]
def sep_pts(A, B, L):
    """axis L strictly separates the hulls of A and B"""
    a, b = [dot(L, p, 3) for p in A], [dot(L, p, 3) for p in B]
    return bor(flt(maxl(a), minl(b)), flt(maxl(b), minl(a)))
def sep_obb_pts(c, e, X, pts, L):
    """axis L strictly separates the box (centre c, half sizes e, axes X) from the hull of pts"""
    r = fsum([fmul(e[k], fabs_(dot(L, X[k], 3))) for k in range(3)]); d = dot(L, c, 3); ps = [dot(L, p, 3) for p in pts]
    return bor(flt(fadd(maxl(ps), r), d), flt(fadd(d, r), minl(ps)))
def obb_in_fr(R, o):
    """centre and axes of the oriented box in the frustum's space"""
    F = axes(R[3:7]); M = relrot(R[3:7], o[6:])
    return local(o, R, F), [[M[i][j] for i in range(3)] for j in range(3)]
def fr_obb(R, o):
    c, X = obb_in_fr(R, o); e = o[3:6]; C = fr_local(R); pls = fr_planes_local(R)
    rad = [fsum([fmul(e[k], fabs_(dot(pl, X[k], 3))) for k in range(3)]) for pl in pls]; d = [pdot(pl, c) for pl in pls]
    beyond = disj([flt(r, x) for r, x in zip(rad, d)]); inside = conj([fle(x, ZEROW) for x in d])
    own = []
    for k in range(3):
        ps = [dot(X[k], p, 3) for p in C]; q = dot(X[k], c, 3); own += [flt(fadd(q, e[k]), minl(ps)), flt(maxl(ps), fsub(q, e[k]))]
    sep = disj(own + [sep_obb_pts(c, e, X, C, cross(x, f)) for x in X for f in fr_edge_dirs(R)])
    return band(bnot(beyond), bor(inside, bnot(sep)))
def fr_tri(R, vs):
    F = axes(R[3:7]); t = [local(v, R, F) for v in vs]; C = fr_local(R); pls = fr_planes_local(R)
    ds = [[pdot(pl, p) for p in t] for pl in pls]
    beyond = disj([conj([flt(ZEROW, x) for x in d]) for d in ds]); inside = conj([fle(x, ZEROW) for d in ds for x in d])
    ed = [sub3(t[1], t[0]), sub3(t[2], t[1]), sub3(t[0], t[2])]
    n = cross(ed[0], sub3(t[2], t[0]))
    sep = disj([sep_pts([t[0]], C, n)] + [sep_pts(t, C, cross(x, f)) for x in ed for f in fr_edge_dirs(R)])
    return band(bnot(beyond), bor(inside, bnot(sep)))
def rel_q(B, A): return qmul(conjq(B[3:7]), A[3:7])
def fr_in_fr(B, A):
    """frustum A in the space of frustum B: origin, axes, corners, edge directions"""
    F = axes(B[3:7]); O = local(A, B, F); X = axes(rel_q(B, A))
    to = lambda v: [fsum([fmul(v[j], X[j][i]) for j in range(3)]) for i in range(3)]
    return O, X, [vadd(O, to(c)) for c in fr_local(A)], [to(f) for f in fr_edge_dirs(A)], to
def fr_fr(B, A):
    O, X, CA, EA, to = fr_in_fr(B, A); CB = fr_local(B); plB = fr_planes_local(B); EB = fr_edge_dirs(B)
    ds = [[pdot(pl, p) for p in CA] for pl in plB]
    beyond = disj([conj([flt(ZEROW, x) for x in d]) for d in ds]); inside = conj([fle(x, ZEROW) for d in ds for x in d])
    sep = []
    for pl in fr_planes_local(A):
        n = to(pl[:3]); k = fsub(dot(n, O, 3), pl[3])
        sep.append(conj([flt(k, dot(n, c, 3)) for c in CB]))
    sep += [sep_pts(CA, CB, cross(a, b)) for a in EA for b in EB]
    return band(bnot(beyond), bor(inside, bnot(disj(sep))))
def vite(c, a, b): return [ite(c, x, y) for x, y in zip(a, b)]
