"""C17: construction and transformation of bounding volumes"""
from specs.geom import *
from specs.s_c12 import rotmat, PQ, qfm
P = 'C17'
def o(**kw): return dict({'lin': True, 'tmo': 30.0}, **kw)
def trn(p, M): return [fsum([fmul(p[0], M[0][j]), fmul(p[1], M[1][j]), fmul(p[2], M[2][j]), M[3][j]]) for j in range(3)]
def rows(m): return m
# ---- corners and planes
add('BoundingBox_GetCorners', P, 'real', lambda b, _: flatw(box_corners(b)), nsamp=3)
add('BoundingOrientedBox_GetCorners', P, 'real', lambda b, _: flatw(obb_corners(b)), unit=lambda b, _: [b[6:]], nsamp=3)
add('BoundingFrustum_GetCorners', P, 'real', lambda R, _: flatw(fr_corners(R)), unit=lambda R, _: [R[3:7]], nsamp=3)
add('BoundingFrustum_GetPlanes', P, 'real', lambda R, *_: flatw(fr_planes(R)), unit=lambda R, *_: [R[3:7]], nsamp=3)
# ---- axis-aligned hull of points
def hull(ps):
    lo = [minl([p[k] for p in ps]) for k in range(3)]; hi = [maxl([p[k] for p in ps]) for k in range(3)]
    return [half(fadd(a, b)) for a, b in zip(lo, hi)] + [half(fsub(b, a)) for a, b in zip(lo, hi)]
def pts(q): return [q[3 * k:3 * k + 3] for k in range(len(q) // 3)]
for n in (1, 2, 3, 4, 6):
    add('BoundingBox_CreateFromPoints_%d' % n, P, 'real', lambda _, q: hull(pts(flatw(q))), opts=o(), nsamp=3)
add('BoundingBox_CreateMerged', P, 'real', lambda _, a, b: hull([x for v in (a, b) for x in box_lohi(v)]), req=lambda _, a, b: ge0(*a[3:]) + ge0(*b[3:]), opts=o(), nsamp=3)
add('BoundingBox_CreateFromSphere', P, 'real', lambda _, S: hull(box_lohi(S[:3] + [S[3]] * 3)), req=lambda _, S: ge0(S[3]), opts=o(), nsamp=3)
add('BoundingBox_TransformMatrix', P, 'real', lambda b, _, M: hull([trn(p, M) for p in box_corners(b)]), opts=o(), nsamp=3)
def srot(p, k, q, t): return addv(lcomb(vscale(p[:3], k), axes(q)), t)
add('BoundingBox_TransformDecomposed', P, 'real', lambda b, _, s, q, t: hull([srot(p, s, q, t) for p in box_corners(b)]), unit=lambda b, _, s, q, t: [q], gens={3: 'unit4'}, opts=o(), nsamp=3)
# ---- spheres
add('BoundingSphere_CreateFromBoundingBox', P, 'real', lambda _, b: b[:3] + [length3(b[3:6])], nsamp=3)
add('BoundingSphere_CreateFromBoundingOrientedBox', P, 'real', lambda _, b: b[:3] + [length3(b[3:6])], nsamp=3)
add('BoundingSphere_TransformMatrix', P, 'real', lambda S, _, M: trn(S, M) + [fmul(S[3], fsqrt(maxl([dot(M[k], M[k], 3) for k in range(3)])))], opts=o(), nsamp=3)
add('BoundingSphere_TransformDecomposed', P, 'real', lambda S, _, s, q, t: srot(S, s, q, t) + [fmul(S[3], s)], unit=lambda S, _, s, q, t: [q], gens={3: 'unit4'}, opts=o(), nsamp=3)
# ---- oriented boxes and frusta
add('BoundingOrientedBox_CreateFromBoundingBox', P, 'bits', lambda _, b: b + QID)
add('BoundingOrientedBox_TransformDecomposed', P, 'real', lambda b, _, s, q, t: srot(b, s, q, t) + vscale(b[3:6], s) + qmul(q, b[6:]), unit=lambda b, _, s, q, t: [b[6:], q], gens={3: 'unit4'}, opts=o(), nsamp=3)
add('BoundingFrustum_TransformDecomposed', P, 'real', lambda R, _, s, q, t: srot(R, s, q, t) + qmul(q, R[3:7]) + R[7:11] + vscale(R[11:13], s), unit=lambda R, _, s, q, t: [R[3:7], q], gens={3: 'unit4'}, opts=o(), nsamp=3)
# ---- smallest sphere around two spheres
def merged(_, A, B):
    v = sub3(B, A); d = length3(v); r1, r2 = A[3], B[3]
    t = half(fadd(fsub(r2, r1), d)); out = [fadd(A[k], fmul(fdiv(v[k], d), t)) for k in range(3)] + [half(fsum([d, r1, r2]))]
    return [ite(fle(d, fsub(r1, r2)), A[k], ite(fle(d, fsub(r2, r1)), B[k], out[k])) for k in range(4)]
add('BoundingSphere_CreateMerged', P, 'real', merged, req=lambda _, A, B: ge0(A[3], B[3]), nsamp=4)
# ---- frustum of a projection matrix: slopes of the unprojected edge centres, depths of the unprojected near and far centres
def frmat(_, M, rh):
    C = [[cofactor(M, j, i) for j in range(4)] for i in range(4)]
    s = lambda i, sg: [fsum([sg_(C[i][j], sg), C[2][j], C[3][j]]) for j in range(4)]
    R, L, U, B = s(0, 1), s(0, -1), s(1, 1), s(1, -1); near = C[3]; far = vadd(C[2], C[3])
    zn, zf = fdiv(near[2], near[3]), fdiv(far[2], far[3]); rh = bnot(eq(rh, const(0, rh.w)))
    return [ZEROW] * 3 + QID + [fdiv(R[0], R[2]), fdiv(L[0], L[2]), fdiv(U[1], U[2]), fdiv(B[1], B[2]), ite(rh, zf, zn), ite(rh, zn, zf)]
def sg_(x, s): return x if s > 0 else fneg(x)
def frfacts(_, M, rh):
    C = [[cofactor(M, j, i) for j in range(4)] for i in range(4)]
    return [(det4(M), '!=0')] + [(fsum([sg_(C[i][2], s), C[2][2], C[3][2]]), '!=0') for i in (0, 1) for s in (1, -1)] + [(C[3][3], '!=0'), (fadd(C[2][3], C[3][3]), '!=0')]
def projgen(s, n, mode):
    r = s.rng; m = np.zeros((n, 4, 4))
    u = (lambda a, b: np.round(r.uniform(a, b, n) * 4) / 4) if mode == 'i' else (lambda a, b: r.uniform(a, b, n))
    zn = np.maximum(u(.25, 2), .25); zf = zn + np.maximum(u(.5, 8), .25); l = -np.maximum(u(.1, 2), .25); rr = np.maximum(u(.1, 2), .25); b = -np.maximum(u(.1, 2), .25); t = np.maximum(u(.1, 2), .25)
    sg = np.where(r.random(n) < .5, 1.0, -1.0); k = zf / (zf - zn)
    m[:, 0, 0] = 2 * zn / (rr - l); m[:, 1, 1] = 2 * zn / (t - b); m[:, 2, 0] = -sg * (l + rr) / (rr - l); m[:, 2, 1] = -sg * (t + b) / (t - b); m[:, 2, 2] = sg * k; m[:, 2, 3] = sg; m[:, 3, 2] = -k * zn
    return m
add('BoundingFrustum_CreateFromMatrix', P, 'real', frmat, facts=frfacts, gens={1: projgen}, opts=o(tmo=60.0), nsamp=3)
# ---- by a scale-rotation-translation matrix M = diag(s) R(p) T(t), s > 0
SV = [T.var('s%d' % k) for k in range(3)]; WV = [T.var('w%d' % k) for k in range(4)]; TV = [T.var('t%d' % k) for k in range(3)]
def srt(n, q, uniform):
    ins = [T.var('i%d' % k) for k in range(n)]; R = rotmat(PQ); S = [SV[0]] * 3 if uniform else SV
    M = [[fmul(S[i], R[i][j]) for j in range(3)] + [WV[i]] for i in range(3)] + [TV + [WV[3]]]
    return lambda: (ins + flatw(M), [PQ, ins[q]], [flt(ZEROW, s) for s in (SV[:1] if uniform else SV)])
def obt(b, _, M): return trn(b, M) + vmul(b[3:6], SV) + qmul(qfm(rotmat(PQ)), b[6:])
add('BoundingOrientedBox_TransformMatrix', P, 'rel', lambda A, O: [('out%d' % k, feq(a, b)) for k, (a, b) in enumerate(zip(flatw(O), obt(*A)))], opts=dict(tmo=60.0, prune=True, param=srt(20, slice(6, 10), False)), gens={2: 'srtpos'}, nsamp=3, oracle=lambda x, w: obt_or(x, w, 'O'))
def frt(R, _, M): return trn(R, M) + qmul(qfm(rotmat(PQ)), R[3:7]) + R[7:11] + vscale(R[11:13], SV[0])
add('BoundingFrustum_TransformMatrix', P, 'rel', lambda A, O: [('out%d' % k, feq(a, b)) for k, (a, b) in enumerate(zip(flatw(O), frt(*A)))], opts=dict(tmo=60.0, prune=True, param=srt(26, slice(3, 7), True)), gens={2: 'uniform_srt'}, nsamp=3, oracle=lambda x, w: obt_or(x, w, 'R'))
def qrot(q):
    X, Y, Z, W = q.T
    return np.stack([1 - 2 * (Y * Y + Z * Z), 2 * (X * Y + Z * W), 2 * (X * Z - Y * W), 2 * (X * Y - Z * W), 1 - 2 * (X * X + Z * Z), 2 * (Y * Z + X * W), 2 * (X * Z + Y * W), 2 * (Y * Z - X * W), 1 - 2 * (X * X + Y * Y)], 1).reshape(-1, 3, 3)
def obt_or(x, w, kind):
    """centre mapped by M, axes turned by the rotation of M, sizes scaled"""
    n = 10 if kind == 'O' else 13; q = slice(6, 10) if kind == 'O' else slice(3, 7)
    a = f64(x[:, :n]); M = f64(x[:, 2 * n:]).reshape(-1, 4, 4); b = f64(w); W = M[:, :3, :3]
    with np.errstate(all='ignore'):
        L = np.linalg.norm(W, axis=2); tol = 2e-5 * (1 + np.abs(a).max(1)) * (1 + np.abs(M).max((1, 2)))
        bad = ~(np.abs(np.einsum('ni,nij->nj', a[:, :3], W) + M[:, 3, :3] - b[:, :3]).max(1) <= tol)
        bad |= ~(np.abs(qrot(a[:, q]) @ (W / L[:, :, None]) - qrot(b[:, q])).max((1, 2)) <= 2e-5)
        if kind == 'O': bad |= ~(np.abs(a[:, 3:6] * L - b[:, 3:6]).max(1) <= tol)
        else: bad |= (x[:, 7:11] != w[:, 7:11]).any(1) | ~(np.abs(a[:, 11:13] * L.max(1)[:, None] - b[:, 11:13]).max(1) <= tol)
    return bad, np.ones(len(x), bool)

# ---- oriented box of points: whatever orientation is chosen, the box is the hull of the points in its axes
def obbpts(_, q, O):
    """centre and half sizes: minimum and maximum of the points along each axis of the result"""
    A = axes(O[6:10]); ps = pts(flatw(q)); ks = [[dot(p, a, 3) for p in ps] for a in A]
    lo, hi = [minl(k) for k in ks], [maxl(k) for k in ks]
    return lcomb([half(fadd(a, b)) for a, b in zip(lo, hi)], A) + [half(fsub(b, a)) for a, b in zip(lo, hi)]
def obbor(n, principal=True, count=None):
    """count: points actually passed (the n given ones repeated). sane: the cubic solver (third powers of squares of the summed squared spreads) cannot overflow"""
    def f(x, w):
        p = f64(x[:, 10:10 + 3 * n]).reshape(-1, n, 3); b = f64(w); bad = np.zeros(len(x), bool)
        with np.errstate(all='ignore'):
            big = np.abs(p).max((1, 2)); sane = (big < 1e3) & (big > 1e-3) & (((p - p.mean(1, keepdims=True)) ** 2).sum((1, 2)) * max(1, (count or n) / n) < 1e5); unit = np.isfinite(b).all(1) & (np.abs(np.linalg.norm(b[:, 6:10], axis=1) - 1) < 1e-4); ok = sane | unit
            A = qrot(b[:, 6:10]); l = np.einsum('npj,nij->npi', p - b[:, None, :3], A); tol = 1e-5 * (1 + big)
            bad = ~unit | ~((np.abs(l).max(1) - b[:, 3:6]).max(1) <= tol) | ~((b[:, 3:6] - np.abs(l).max(1)).max(1) <= tol)
            # axes along the principal directions (distinct spreads), up to the occasional ill-conditioned eigenvector
            d = p - p.mean(1, keepdims=True); C = np.nan_to_num(np.einsum('npi,npj->nij', d, d)); E = np.nan_to_num(np.einsum('nik,nkl,njl->nij', np.nan_to_num(A), C, np.nan_to_num(A)))
            ev = np.sort(np.linalg.eigvalsh(C), axis=1); sep = sane & (ev[:, 1] > 2 * ev[:, 0]) & (ev[:, 2] > 2 * ev[:, 1]) & (ev[:, 0] > 0.02 * ev[:, 2]) & (ev[:, 2] > 1e-2) & (big < 20 * np.sqrt(ev[:, 2]))
            off = sep & ~(np.abs(E[:, [0, 0, 1], [1, 2, 2]]).max(1) <= 0.05 * ev[:, 2])
            if principal and sep.sum() >= (50 if count is None else 10) and off.sum() > (0.05 if count is None else 0.25) * sep.sum(): bad |= off
        return bad & ok, ok
    return f
for n in (1, 2, 3, 4, 6):
    add('BoundingOrientedBox_CreateFromPoints_%d' % n, P, 'rel', lambda A, O: [(('centre%d' if k < 3 else 'extent%d') % (k % 3), feq(a, b)) for k, (a, b) in enumerate(zip(flatw(O)[:6], obbpts(*A, flatw(O))))],
        opts=o(gen_out=(6, 7, 8, 9)), oracle=obbor(n), nsamp=2)
# ---- sphere of points
def extremes(ps):
    """points of smallest and of largest coordinate k (the first such), and the intermediate values of the scan"""
    lo = [ps[0]] * 3; hi = [ps[0]] * 3; pt = []
    for p in ps[1:]:
        lo = [vite(flt(p[k], m[k]), p, m) for k, m in enumerate(lo)]; hi = [vite(flt(m[k], p[k]), p, m) for k, m in enumerate(hi)]
        pt += [(fle(l[k], h[k]), 'fact') for k, (l, h) in enumerate(zip(lo, hi))] + [(x, None) for x in flatw(lo) + flatw(hi)]
    return lo, hi, pt
def start(ps):
    """sphere spanned by the pair of extreme points (of x, y or z) that is farthest apart"""
    lo, hi, pt = extremes(ps)
    d = [length3(sub3(h, l)) for h, l in zip(hi, lo)]
    x = band(flt(d[1], d[0]), flt(d[2], d[0])); y = band(fle(d[0], d[1]), flt(d[2], d[1]))
    pick3 = lambda v: vite(x, v[0], vite(y, v[1], v[2]))
    h, l = pick3(hi), pick3(lo)
    return [half(fadd(a, b)) for a, b in zip(h, l)], half(ite(x, d[0], ite(y, d[1], d[2]))), (pt, d)
def grow(c, r, p):
    """smallest sphere around the sphere (c, r) and the point p"""
    v = sub3(p, c); D = length3(v); r2 = half(fadd(r, D)); out = flt(r, D)
    c2 = [fadd(a, fmul(fsub(ONEF, fdiv(r2, D)), b)) for a, b in zip(c, v)]
    return vite(out, c2, c), ite(out, r2, r), D
def sphpts(ps, points=False):
    c, r, (pt, d) = start(ps); pt = pt + [(x, '>=0') for x in d] + [(x, None) for x in c] + [(r, '>=0')]
    for p in ps:
        c, r, D = grow(c, r, p); pt += [(D, '>=0'), (r, '>=0')] + [(x, None) for x in c]
    return pt if points else c + [r]
for n in (1, 2, 3, 4, 6):
    add('BoundingSphere_CreateFromPoints_%d' % n, P, 'real', lambda _, q: sphpts(pts(flatw(q))), opts=o(points=lambda _, q: sphpts(pts(flatw(q)), True)) if n > 1 else o(), nsamp=2)
def frcorn(R): return fr_corners(R)
add('BoundingSphere_CreateFromFrustum', P, 'real', lambda _, R: sphpts(frcorn(R)), unit=lambda _, R: [R[3:7]], req=lambda _, R: valid_fr(R), opts=o(points=lambda _, R: [(x, None) for x in flatw(frcorn(R))] + sphpts(frcorn(R), True)), nsamp=2)
# lemma over the contract of the growing step: the new sphere contains the old one and the point.  y = x - c, v = p - c, D = |v| > r >= |y|
def growlemma(A, O):
    y, v = [[T.var('%s%d' % (t, k)) for k in range(3)] for t in 'yv']; k, n, s, D, r = [T.var('l_' + t) for t in ('k', 'n', 's', 'D', 'r')]
    two = fl(2.0); kk = fdiv(fsub(D, r), fmul(two, D)); R = half(fadd(r, D))
    hyp = conj([fle(ZEROW, r), flt(r, D), fle(n, sq(r)), fle(sq(s), fmul(n, sq(D)))])
    return [('cauchy-schwarz', feq(fsub(fmul(len2(y), len2(v)), sq(dot(y, v))), len2(cross(y, v)))),
            ('expansion', feq(len2(vsub(y, vscale(v, k))), fsum([len2(y), fneg(fmul(fmul(two, k), dot(y, v))), fmul(sq(k), len2(v))]))),
            ('old-sphere-inside', bor(bnot(hyp), fle(fsum([n, fneg(fmul(fmul(two, kk), s)), fmul(sq(kk), sq(D))]), sq(R)))),
            ('point-inside', bor(bnot(hyp), feq(fmul(fsub(ONEF, kk), D), R)))]
add('BoundingSphere_CreateFromPoints_1', P, 'rel', growlemma, oracle=lambda x, w: (np.zeros(len(x), bool), np.ones(len(x), bool)), label='grow-lemma')
# ---- sequences of any length: the same constructions as folds (induction over the loops; lengths up to 32 are also run)
from xmv.spec import Clause
from xmv.induct import NS
LONG = (70, 300, 5000, 70000)      # the 32 points of the input, repeated
def anylen(name, fold, smp, **kw):
    cl = [smp(n) for n in NS + LONG]
    for n, c in zip(NS + LONG, cl):
        c.label = 'n=%d' % n; c.opts['fix'] = {API[name]['nin'] - 1: n}
        if n > 32: c.nsamp = {70: .5, 300: .5, 5000: .5, 70000: .2}[n]
    add(name, P, 'fold', None, label='any-length', opts=dict({'lin': True, 'tmo': 30.0, 'fold': fold, 'samples': cl, 'cost': 5}, **kw))
def minmax(g, p): return [fmn(a, b) for a, b in zip(g[:3], p)] + [fmx(a, b) for a, b in zip(g[3:], p)]
def fmn(a, b): return ite(flt(b, a), b, a)
def fmx(a, b): return ite(flt(a, b), b, a)
mid = lambda g: [half(fadd(a, b)) for a, b in zip(g[:3], g[3:6])]
ext = lambda g: [half(fsub(b, a)) for a, b in zip(g[:3], g[3:6])]
nm = 'BoundingBox_CreateFromPoints_any'
anylen(nm, dict(stages=[dict(init=lambda p, F, O: p + p, step=lambda g, p, F, O: minmax(g, p))], out=lambda F, O: mid(F) + ext(F)),
       lambda n: Clause(nm, P, 'real', lambda _, q, u: hull(pts(flatw(q)[:3 * min(n, 32)])), nsamp=.5))
def cloud(s, n, mode):
    """points with three distinct spreads around an offset"""
    r = s.rng; q = r.normal(0, 1, (n, 32, 3)) * np.array([0.8, 0.35, 0.15])
    return (np.einsum('npi,nij->npj', q, s.rot(n, 'n')[:, :3, :3].astype(np.float64)) + r.uniform(-2, 2, (n, 1, 3))).reshape(n, 96).astype(np.float32)
nm2 = 'BoundingOrientedBox_CreateFromPoints_any'
prj = lambda p, O: [dot(p, a, 3) for a in axes(O[6:10])]
anylen(nm2, dict(stages=[dict(init=lambda p, F, O: prj(p, O) * 2, step=lambda g, p, F, O: minmax(g, prj(p, O)))], out=lambda F, O: lcomb(mid(F), axes(O[6:10])) + ext(F) + [None] * 4),
       lambda n: Clause(nm2, P, 'rel', None, oracle=obbor(n) if n <= 32 else obbor(32, True, n), nsamp=.5, gens={} if n <= 32 else {1: cloud}), gen_out=(6, 7, 8, 9))
# sphere: extreme points of the three coordinates, then growth from the sphere over the farthest pair
def ext18(g, p):
    E = [g[3 * k:3 * k + 3] for k in range(6)]
    return flatw([vite(flt(p[k], E[k][k]), p, E[k]) for k in range(3)] + [vite(flt(E[3 + k][k], p[k]), p, E[3 + k]) for k in range(3)])
def start6(F):
    E = [F[3 * k:3 * k + 3] for k in range(6)]; lo, hi = E[:3], E[3:]
    d = [length3(sub3(h, l)) for h, l in zip(hi, lo)]
    x = band(flt(d[1], d[0]), flt(d[2], d[0])); y = band(fle(d[0], d[1]), flt(d[2], d[1]))
    pick3 = lambda v: vite(x, v[0], vite(y, v[1], v[2]))
    return [half(fadd(a, b)) for a, b in zip(pick3(hi), pick3(lo))], half(ite(x, d[0], ite(y, d[1], d[2]))), d
def gr4(g, p): c, r, D = grow(g[:3], g[3], p); return c + [r]
def gpts(g, p): c, r, D = grow(g[:3], g[3], p); return [(D, '>=0'), (r, '>=0')] + [(x, None) for x in c]
def ipts(p, F, O): c, r, d = start6(F); return [(x, '>=0') for x in d] + [(x, None) for x in c] + [(r, '>=0')] + gpts(c + [r], p)
def ini2(p, F, O): c, r, d = start6(F); return gr4(c + [r], p)
def sphor(x, w):
    """every point lies in the sphere"""
    p = f64(x[:, 4:100]).reshape(-1, 32, 3); b = f64(w)
    with np.errstate(all='ignore'):
        big = np.abs(p).max((1, 2)); ok = (big < 1e3) & (big > 1e-3)
        return ok & ~(np.linalg.norm(p - b[:, None, :3], axis=2).max(1) <= b[:, 3] + 1e-4 * (1 + big)), ok
nm3 = 'BoundingSphere_CreateFromPoints_any'
anylen(nm3, dict(stages=[dict(init=lambda p, F, O: p * 6, step=lambda g, p, F, O: ext18(g, p), facts=[('ordered%d' % k, lambda g, k=k: fle(g[4 * k], g[9 + 4 * k])) for k in range(3)]),
                         dict(init=ini2, step=lambda g, p, F, O: gr4(g, p), facts=[('radius', lambda g: fle(ZEROW, g[3]))], ipoints=ipts, spoints=lambda g, p, F, O: gpts(g, p))],
                 out=lambda F, O: F[18:22]),
       lambda n: Clause(nm3, P, 'real', lambda _, q, u: sphpts(pts(flatw(q)[:3 * n])), nsamp=.3) if n <= 32 else Clause(nm3, P, 'rel', None, oracle=sphor))
