"""C11: decomposition of scale-rotation-translation matrices

The rotation is stated as XMQuaternionRotationMatrix(R) where M = diag(s) R(p) T(t); with the contract of that
function (C12, clause inverse-of-rotation: for R = R(p) it returns p or -p) the rotation returned is p up to sign."""
from specs.lib import *
from specs.s_c12 import rotmat, PQ, qfm
P = 'C11'
SV = [T.var('s%d' % k) for k in range(3)]; WV = [T.var('w%d' % k) for k in range(3)]; TV = [T.var('t%d' % k) for k in range(4)]
DEC = fl(0.0001)
OLD = [T.var('i%d' % k) for k in range(12)]
def srt():
    R = rotmat(PQ)
    rows = [[fmul(SV[i], R[i][j]) for j in range(3)] + [WV[i]] for i in range(3)] + [TV]
    return OLD + flatw(rows), [PQ]
def absr(x): return fabs_(x)
def neg(x, s): return x if s > 0 else fneg(x)
def post(scale=None, rot=None):
    """scale: expected scales (default: those of the parametrisation); rot: row signs of the rotation, None = not stated (then scales up to sign)"""
    def f(A, O):
        ret, sc, q, t = O; e = scale or SV
        r = [('returns-true', bnot(eq(ret, const(0, ret.w))))] + [('scale%d' % k, feq(fabs_(sc[k]), e[k]) if rot is None else feq(sc[k], e[k])) for k in range(3)] + [('scale3', feq(sc[3], ZEROW))]
        if rot is not None:
            R = rotmat(PQ); R = [[neg(x, rot[i]) for x in R[i]] for i in range(3)]
            r += [('rotation%d' % k, feq(a, b)) for k, (a, b) in enumerate(zip(q, qfm(R)))]
        return r + [('translation%d' % k, feq(t[k], TV[k])) for k in range(4)]
    return f
# numeric oracle: the parts recompose to the matrix
def f64(w): return np.ascontiguousarray(w).view(np.float32).astype(np.float64)
def qrot(q):
    X, Y, Z, W = q.T
    return np.stack([1 - 2 * (Y * Y + Z * Z), 2 * (X * Y + Z * W), 2 * (X * Z - Y * W), 2 * (X * Y - Z * W), 1 - 2 * (X * X + Z * Z), 2 * (Y * Z + X * W), 2 * (X * Z + Y * W), 2 * (Y * Z - X * W), 1 - 2 * (X * X + Y * Y)], 1).reshape(-1, 3, 3)
def recompose(x, o):
    m = f64(x[:, 12:28]).reshape(-1, 4, 4); sc, q, t = f64(o[:, 1:5]), f64(o[:, 5:9]), f64(o[:, 9:13])
    L = np.linalg.norm(m[:, :3, :3], axis=2)
    with np.errstate(all='ignore'):
        # scales that the decomposition treats as zero, or nearly so, are only bounded by their size
        tol = 2e-5 * L.max(1)[:, None, None] + 2e-6 + np.where((L < 1.01e-4), 2 * L, 0)[:, :, None] + np.where(L < 1e-3, 3e-3 * L, 0)[:, :, None]
        r = qrot(q) * sc[:, :3, None]
        bad = ~(np.abs(r - m[:, :3, :3]) <= tol).all(2).all(1) | (o[:, 0] == 0) | (sc[:, 3] != 0) | ~(np.abs(np.linalg.norm(q, axis=1) - 1) < 1e-4)
        bad |= (o[:, 9:13] != x[:, 24:28]).any(1)
    return bad, np.ones(len(x), bool)
def zero_srt(s, n, mode):
    m = s.rot(n, mode); r = s.rng
    sc = r.choice([0.5, 1, 2, 4], (n, 3)) if mode == 'i' else r.uniform(0.1, 3, (n, 3))
    sc = sc * np.where(r.random((n, 3)) < .3, -1, 1) * np.where(r.random((n, 3)) < .5, 0, 1)
    # small scales, down to the size the decomposition treats as zero
    sm = (r.random((n, 1)) < .4) & (r.random((n, 3)) < .8)
    sc = np.where(sm, np.sign(sc + (sc == 0)) * 10.0 ** r.uniform(-3.6, -0.5, (n, 3)), sc)
    m[:, :3, :3] *= sc[:, :, None]; m[:, 3, :3] = s.f(n, 3, 'n').view(np.float32)
    return m


def clause(label, reqs, gen, post, par=srt, **kw):
    add('XMMatrixDecompose', P, 'rel', post, opts={'param': lambda: par() + (reqs,), 'tmo': 60.0, 'own_job': True, 'prune': True}, gens={3: gen}, oracle=recompose, label=label, **kw)
ONE3 = (1, 1, 1)
# all scales positive
clause('positive-scales', [fle(DEC, s) for s in SV], 'srtpos', post(rot=ONE3))

# the largest scale negative (two negated axes are a rotation, so this and the previous clause cover every sign pattern)
for a in range(3):
    o = [k for k in range(3) if k != a]
    clause('reflection-%s' % 'xyz'[a], [fle(DEC, SV[k]) for k in o] + [flt(SV[k], fneg(SV[a])) for k in o], 'srt', post(rot=ONE3))
# one scale zero: the missing axis is completed to a rotation; for an odd order of the axes two axes and one scale change sign
import itertools
def fixed(z):
    def par():
        m = {SV[k].id: v for k, v in z.items()}
        ins, unit = srt(); return T.subst(ins, m), unit
    return par
for a, b, c in itertools.permutations(range(3)):
    sg = 1 if (a, b, c) in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) else -1
    e = [None] * 3; e[a] = neg(SV[a], sg); e[b] = SV[b]; e[c] = ZEROW
    r = [1] * 3; r[a] = sg; r[c] = sg
    clause('zero-scale-%s' % ''.join('xyz'[k] for k in (a, b, c)), [fle(DEC, SV[b]), flt(SV[b], SV[a])], zero_srt, post(e, r), fixed({c: ZEROW}))
# two scales zero, or all
UV = [T.var('u%d' % k) for k in range(3)]
def axis(a):
    def par():
        rows = [[ZEROW] * 3 + [WV[i]] for i in range(3)] + [TV]; rows[a] = [fmul(SV[a], x) for x in UV] + [WV[a]]
        return OLD + flatw(rows), [UV]
    return par
for a in range(3):
    e = [ZEROW] * 3; e[a] = SV[a]
    clause('one-axis-%s' % 'xyz'[a], [fle(DEC, SV[a])], zero_srt, post(e), axis(a))
clause('zero-matrix', [], zero_srt, post([ZEROW] * 3), fixed({k: ZEROW for k in range(3)}))
