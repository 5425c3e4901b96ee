"""C08: transforming vectors by matrices and quaternions"""
from specs.lib import *
P = 'C08'
def E(names, mode='real', **kw): return ens(names, P, mode, **kw)
def t2(v, M): return [fsum([fmul(v[0], M[0][j]), fmul(v[1], M[1][j]), M[3][j]]) for j in range(4)]
def t3(v, M): return tr(v, M)
def n2(v, M): return [fsum([fmul(v[0], M[0][j]), fmul(v[1], M[1][j])]) for j in range(4)]
def n3(v, M): return [fsum([fmul(v[k], M[k][j]) for k in range(3)]) for j in range(4)]
def coord(r): return [fdiv(r[0], r[3]), fdiv(r[1], r[3]), fdiv(r[2], r[3]), fdiv(r[3], r[3])]
E('XMVector2Transform')(t2); E('XMVector3Transform')(t3); E('XMVector4Transform')(row)
E('XMVector2TransformNormal')(n2); E('XMVector3TransformNormal')(n3)
E('XMVector2TransformCoord')(lambda v, M: coord(t2(v, M)))
E('XMVector3TransformCoord')(lambda v, M: coord(t3(v, M)))
E('XMVector3Rotate')(lambda v, q: rotate(v, q))
E('XMVector3InverseRotate')(lambda v, q: rotate(v, conjq(q)))
@E('XMVector3Project')
def project(V, X, Y, W, H, n, f, Pm, Vm, Wm):
    T_ = mmul4(mmul4(Wm, Vm), Pm)
    r = coord(tr(V, T_))
    hw, hh = fmul(W, fl(.5)), fmul(H, fl(.5))
    return [fadd(fmul(r[0], hw), fadd(X, hw)), fadd(fmul(r[1], fneg(hh)), fadd(Y, hh)), fadd(fmul(r[2], fsub(f, n)), n), None]
@E('XMVector3Unproject')
def unproject(V, X, Y, W, H, n, f, Pm, Vm, Wm):
    T_ = mmul4(mmul4(Wm, Vm), Pm)
    I, _ = minverse(T_)
    v = [fsub(fdiv(fsub(V[0], X), fmul(W, fl(.5))), ONEF), fsub(ONEF, fdiv(fsub(V[1], Y), fmul(H, fl(.5)))), fdiv(fsub(V[2], n), fsub(f, n))]
    r = coord(tr(v, I))
    return r[:3] + [None]
