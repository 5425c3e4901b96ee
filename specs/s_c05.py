"""C05: integer/float/half conversions"""
from specs.lib import *
P = 'C05'
A = T.arith
U32 = ('int', 0, 31)
def E(names, mode='exact', **kw): return ens(names, P, mode, **kw)
def p2(k):            # 2^k as float bits, k a 32-bit term in 0..31
    return A('shl', A('add', k, const(127)), const(23))
def pm(k): return A('shl', A('sub', const(127), k), const(23))
lt32 = lambda v, d: [ult(d, const(32))]
CASES = {'cases': (4, range(32))}
E('XMConvertVectorIntToFloat', 'exactz', req=lt32, gens={0: 'bits', 1: U32}, opts=CASES)(lambda v, d: [fmul(sitofp(x), pm(d)) for x in v])
def uif(A_, O):
    v, d = A_
    r = []
    for k in range(4):
        s = fmul(uitofp(v[k]), pm(d))
        r.append(('lane%d' % k, ule(A('add', A('sub', O[0][k], s), const(1)), const(2))))
        r.append(('lane%d-exact' % k, implies(ult(v[k], const(0x80000000)), eq(O[0][k], s))))
    return r
for lo in range(0, 32, 4):
    add('XMConvertVectorUIntToFloat', P, 'relx', uif, req=lambda v, d, lo=lo: [ule(const(lo), d), ule(d, const(lo + 3))], gens={0: 'bits', 1: ('int', lo, lo + 3)},
        opts={'cases': (4, range(lo, lo + 4)), 'cost': 9, 'own_job': 1}, label='value-exp%d-%d' % (lo, lo + 3))
FI = ('mix', -10, 10, [0.0, -0.0, 0.5, 0.99999994, 1.0, -1.5, 2147483648.0, 2147483520.0, -2147483648.0, -2147483904.0, 4294967040.0, 4294967296.0, 1e30, -1e30, float('inf'), float('-inf'), 8388607.5, 16777216.0, 3e9, -3e9, 1.0001e9])
nn = lambda v, d: [ult(d, const(32))] + [bnot(isnan(x)) for x in v]
def f2i(x, d):
    y = fmul(x, p2(d))
    return ite(fle(fl(2147483648.0), y), const(0x7fffffff), ite(flt(y, fl(-2147483648.0)), const(0x80000000), fptosi(y)))
def f2u(x, d):
    y = fmul(x, p2(d))
    return ite(fle(fl(4294967296.0), y), const(0xffffffff), ite(fle(y, ZEROW), ZEROW, fptoui(y)))
E('XMConvertVectorFloatToInt', 'bits', req=nn, gens={0: FI, 1: U32}, opts=dict(CASES, cost=5))(lambda v, d: [f2i(x, d) for x in v])
E('XMConvertVectorFloatToUInt', 'bits', req=nn, gens={0: FI, 1: U32}, opts=dict(CASES, cost=5))(lambda v, d: [f2u(x, d) for x in v])

# half precision: the 65536 halves are decided exhaustively, the float side bit-precisely
def half_to_float(h):
    e = band(A('lshr', h, const(10)), const(31)); m = band(h, const(0x3ff)); s = A('shl', band(h, const(0x8000)), const(16))
    den = fmul(uitofp(m), fl(2.0 ** -24))
    nor = bor(A('shl', A('add', e, const(112)), const(23)), A('shl', m, const(13)))
    spc = bor(const(0x7f800000), A('shl', m, const(13)))
    return bor(s, ite(eq(e, ZEROW), den, ite(eq(e, const(31)), spc, nor)))
E('XMConvertHalfToFloat', 'exact', opts={'domain': [range(65536)]}, req=lambda h: [ult(h, const(65536))], sub=True)(half_to_float)
def float_to_half(v):
    a = band(v, const(0x7fffffff)); s = A('lshr', band(v, const(0x80000000)), const(16))
    den = A('sub', fadd(a, fl(0.5)), const(0x3f000000))
    nor = A('sub', A('lshr', A('add', A('add', a, const(0xfff)), band(A('lshr', a, const(13)), const(1))), const(13)), const(112 << 10))
    return bor(s, ite(ult(a, const(0x38800000)), den, ite(ule(const(0x477ff000), a), const(0x7c00), nor)))
HG = ('mix', -4, 4, [0.0, -0.0, 65504.0, 65519.996, 65520.0, 65536.0, -65520.0, 1e30, 6.1035156e-05, 6.097555e-05, 5.9604645e-08, 2.9802322e-08, 2.9802326e-08, 8.9e-08, 1e-40, 1.0004883, 1.0014648, 2049.0, 2051.0, 3e-6, 1.5e-5])
E('XMConvertFloatToHalf', 'bits', req=lambda v: [bnot(isnan(v))], gens={0: HG})(float_to_half)
add('XMConvertFloatToHalf', P, 'relx', lambda A_, O: [('nan', ult(const(0x7c00), band(O[0], const(0x7fff))))], req=lambda v: [isnan(v)], label='nan')
