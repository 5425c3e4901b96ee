"""C01: constructing vectors, reading and writing components, and moving components is lossless"""
from specs.lib import *
P = 'C01'
def E(names, **kw): return ens(names, P, 'bits', **kw)

@E('XMVectorZero')
def _(): return ZERO4
@E('XMVectorSet')
def _(x, y, z, w): return [x, y, z, w]
@E('XMVectorSetInt')
def _(x, y, z, w): return [x, y, z, w]
@E(['XMVectorReplicate', 'XMVectorReplicatePtr', 'XMVectorReplicateInt'])
def _(x): return splat(x)
@E(['XMVectorTrueInt'])
def _(): return splat(ONES)
@E(['XMVectorFalseInt'])
def _(): return ZERO4
@E('XMVectorSplatOne')
def _(): return splat(ONEF)
@E('XMVectorSplatInfinity')
def _(): return splat(const(0x7f800000))
@E('XMVectorSplatQNaN')
def _(): return splat(const(0x7fc00000))
@E('XMVectorSplatEpsilon')
def _(): return splat(const(0x34000000))
@E('XMVectorSplatSignMask')
def _(): return splat(const(0x80000000))
for k, n in enumerate('XYZW'):
    E('XMVectorSplat' + n)(lambda v, k=k: splat(v[k]))
    E(['XMVectorGet' + n, 'XMVectorGetInt' + n])(lambda v, k=k: v[k])
    E('XMVectorGet%sPtr' % n)(lambda r, v, k=k: v[k])
    E(['XMVectorSet' + n, 'XMVectorSetInt' + n])(lambda v, f, k=k: [f if j == k else v[j] for j in range(4)])

lt = lambda x, k: ult(x, const(k, x.w))
@E(['XMVectorGetByIndex', 'XMVectorGetIntByIndex'], req=lambda v, i: [lt(i, 4)])
def _(v, i): return pick(v, i)
@E(['XMVectorSetByIndex', 'XMVectorSetIntByIndex'], req=lambda v, f, i: [lt(i, 4)])
def _(v, f, i): return [ite(eq(i, const(k, i.w)), f, v[k]) for k in range(4)]
U4 = ('int', 0, 3); U8 = ('int', 0, 7)
@E('XMVectorSwizzle', req=lambda v, *e: [lt(i, 4) for i in e], gens={1: U4, 2: U4, 3: U4, 4: U4})
def _(v, *e): return [pick(v, i) for i in e]
@E('XMVectorPermute', req=lambda a, b, *e: [lt(i, 8) for i in e], gens={2: U8, 3: U8, 4: U8, 5: U8})
def _(a, b, *e): return [pick(a + b, i) for i in e]
@E('XMVectorShiftLeft', req=lambda a, b, n: [lt(n, 4)], gens={2: U4})
def _(a, b, n): return [pick([(a + b)[k + j] for j in range(4)], n) for k in range(4)]
@E('XMVectorRotateLeft', req=lambda v, n: [lt(n, 4)], gens={1: U4})
def _(v, n): return [pick([v[(k + j) % 4] for j in range(4)], n) for k in range(4)]
@E('XMVectorRotateRight', req=lambda v, n: [lt(n, 4)], gens={1: U4})
def _(v, n): return [pick([v[(k - j) % 4] for j in range(4)], n) for k in range(4)]
U2 = ('int', 0, 1)
@E('XMVectorInsert', req=lambda d, s, n, *e: [lt(n, 4)], gens={2: U4, 3: U4, 4: U4, 5: U4, 6: U4})
def _(d, s, n, *e):
    rot = [pick([s[(k + j) % 4] for j in range(4)], n) for k in range(4)]
    return [ite(extract(e[k], 0, 1), rot[k], d[k]) for k in range(4)]
@E('XMVectorMergeXY')
def _(a, b): return [a[0], b[0], a[1], b[1]]
@E('XMVectorMergeZW')
def _(a, b): return [a[2], b[2], a[3], b[3]]
@E('XMVectorSelectControl', req=lambda *e: [lt(i, 2) for i in e], gens={k: U2 for k in range(4)})
def _(*e): return [ite(eq(i, ZEROW), ZEROW, ONES) for i in e]
@E('XMVectorSetBinaryConstant', gens={k: ('int', 0, 7) for k in range(4)})
def _(*e): return [ite(extract(i, 0, 1), ONEF, ZEROW) for i in e]
@E('XMVectorSplatConstantInt', req=lambda i: [sle(const(-16), i), sle(i, const(15))], gens={0: ('int', -16, 15)})
def _(i): return splat(i)
@E('XMVectorSplatConstant', req=lambda i, d: [sle(const(-16), i), sle(i, const(15)), lt(d, 32)], gens={0: ('int', -16, 15), 1: ('int', 0, 31)}, opts={'domain': [range(-16, 16), range(32)]})
def _(i, d):
    # i / 2^d, exactly representable
    return splat(pick([fmul(sitofp(i), fl(2.0 ** -k)) for k in range(32)], d))
@E('XMVectorSelect')
def _(a, b, c): return [bor(band(x, bnot(m)), band(y, m)) for x, y, m in zip(a, b, c)]

# compile-time swizzles and permutes
for n in API:
    if n.startswith('SwizzleT_'):
        E(n)(lambda v, s=n[9:]: [v['XYZW'.index(ch)] for ch in s])
    if n.startswith('PermuteT_'):
        s = n[9:]
        E(n)(lambda a, b, s=s: [(a if s[2 * k] == '0' else b)['XYZW'.index(s[2 * k + 1])] for k in range(4)])
# index and selector constants
E('CONST_permute0')(lambda: [const(k) for k in range(4)])
E('CONST_permute1')(lambda: [const(4 + k) for k in range(4)])
E('CONST_swizzle')(lambda: [const(k) for k in range(4)])
E('CONST_select')(lambda: [const(0), const(0xffffffff)])
