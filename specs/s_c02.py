"""C02: loads and stores and conversions between storage types move exactly the named components"""
from specs.lib import *
P = 'C02'
def E(names, **kw): return ens(names, P, 'bits', **kw)
Z = ZEROW; O = ONEF
E(['XMLoadInt2', 'XMLoadFloat2'])(lambda s: [s[0], s[1], Z, Z])
E(['XMLoadInt3', 'XMLoadFloat3', 'XMLoadFloat3A'])(lambda s: [s[0], s[1], s[2], Z])
E(['XMLoadInt4', 'XMLoadFloat4', 'XMLoadFloat4A'])(lambda s: list(s))
ens('XMLoadFloat3x3', P, 'exactz')(lambda s: [s[0:3] + [Z], s[3:6] + [Z], s[6:9] + [Z], [Z, Z, Z, O]])
E('XMLoadFloat4x3')(lambda s: [s[0:3] + [Z], s[3:6] + [Z], s[6:9] + [Z], s[9:12] + [O]])
E('XMLoadFloat3x4')(lambda s: [[s[j], s[4 + j], s[8 + j], O if j == 3 else Z] for j in range(4)])
E(['XMLoadFloat4x4', 'XMLoadFloat4x4A'])(lambda s: list(s))
E('XMStoreFloat')(lambda d, v: v[0])
E(['XMStoreInt2', 'XMStoreFloat2'])(lambda d, v: v[:2])
E(['XMStoreInt3', 'XMStoreFloat3', 'XMStoreFloat3A'])(lambda d, v: v[:3])
E(['XMStoreInt4', 'XMStoreFloat4', 'XMStoreFloat4A'])(lambda d, v: v[:4])
E('XMStoreFloat3x3')(lambda d, m: [m[i][:3] for i in range(3)])
E('XMStoreFloat4x3')(lambda d, m: [m[i][:3] for i in range(4)])
E('XMStoreFloat3x4')(lambda d, m: [m[j][i] for i in range(3) for j in range(4)])
E(['XMStoreFloat4x4', 'XMStoreFloat4x4A'])(lambda d, m: m)
for n, a in API.items():
    if n.startswith(('XMFLOAT', 'XMINT', 'XMUINT')) and '_' in n:
        if '_as_mut' in n: E(n)(lambda z, y: y)
        else: E(n)(lambda z: z)
E(['Align16_as_mut', 'Align16_deref_mut'])(lambda a, b: b)
E(['Align16_as_ref', 'Align16_deref', 'XMVECTORF32_deref', 'XMVECTORI32_deref', 'XMVECTORU32_deref'])(lambda a: a)
