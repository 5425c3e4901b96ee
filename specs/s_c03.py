"""C03: comparisons, their masks and comparison records"""
from specs.lib import *
P = 'C03'
CT, CF, CB = const(0x80), const(0x20), const(0x20)
def E(names, **kw): return ens(names, P, 'bits', **kw)
def inb(v, b): return band(fle(v, b), fle(fneg(b), v))
def near(a, b, e): return fle(fabs_(fsub(a, b)), e)
OPS = {'Equal': feq, 'EqualInt': eq, 'NotEqual': lambda a, b: bnot(feq(a, b)), 'NotEqualInt': lambda a, b: bnot(eq(a, b)),
       'Greater': fgt, 'GreaterOrEqual': fge, 'Less': flt, 'LessOrEqual': fle, 'InBounds': inb}
def cr(bs): return ite(conj(bs), CT, ite(bnot(disj(bs)), CF, ZEROW))
for n, f in OPS.items():
    E('XMVector' + n)(lambda a, b, f=f: [mask(f(x, y)) for x, y in zip(a, b)])
    for d in (2, 3, 4):
        if n.startswith('NotEqual'): E('XMVector%d%s' % (d, n))(lambda a, b, f=f, d=d: disj([f(a[k], b[k]) for k in range(d)]))
        else: E('XMVector%d%s' % (d, n))(lambda a, b, f=f, d=d: conj([f(a[k], b[k]) for k in range(d)]))
for n in ('Equal', 'EqualInt', 'Greater', 'GreaterOrEqual'):
    f = OPS[n]
    E('XMVector%sR' % n)(lambda p, a, b, f=f: [[mask(f(x, y)) for x, y in zip(a, b)], cr([f(x, y) for x, y in zip(a, b)])])
    for d in (2, 3, 4):
        nm = 'XMVector%d%sR' % (d, n)
        spec_ = lambda a, b, f=f, d=d: cr([f(a[k], b[k]) for k in range(d)])
        if n.startswith('Equal'): E(nm)(spec_)
        else:
            nonan = lambda a, b, d=d: [bnot(isnan(t)) for t in a[:d] + b[:d]]
            E(nm, req=nonan, sub=False)(spec_)
            # with a NaN component the record never says "all true"
            add(nm, P, 'relx', lambda A, O, d=d: [('nan', bnot(T.eq(band(O[0], CT), CT)))], req=lambda a, b, d=d: [disj([isnan(t) for t in a[:d] + b[:d]])], label='nan')
E('XMVectorInBoundsR')(lambda p, v, b: [[mask(inb(x, y)) for x, y in zip(v, b)], ite(conj([inb(x, y) for x, y in zip(v, b)]), CB, ZEROW)])
E('XMVectorNearEqual')(lambda a, b, e: [mask(near(x, y, z)) for x, y, z in zip(a, b, e)])
for d in (2, 3, 4):
    E('XMVector%dNearEqual' % d)(lambda a, b, e, d=d: conj([near(a[k], b[k], e[k]) for k in range(d)]))
    E('XMVector%dIsNaN' % d)(lambda v, d=d: disj([isnan(v[k]) for k in range(d)]))
    E('XMVector%dIsInfinite' % d)(lambda v, d=d: disj([isinf(v[k]) for k in range(d)]))
E('XMVectorIsNaN')(lambda v: [mask(isnan(x)) for x in v])
E('XMVectorIsInfinite')(lambda v: [mask(isinf(x)) for x in v])
E('XMScalarNearEqual')(near)
has = lambda c, m: T.eq(band(c, m), m)
E('XMComparisonAllTrue')(lambda c: has(c, CT))
E('XMComparisonAnyTrue')(lambda c: bnot(has(c, CF)))
E('XMComparisonAllFalse')(lambda c: has(c, CF))
E('XMComparisonAnyFalse')(lambda c: bnot(has(c, CT)))
E('XMComparisonMixed', req=lambda c: [T.eq(band(c, const(0x50)), ZEROW)], gens={0: ('u32', [0, 0x20, 0x80, 0xa0, 0x100, 0x0f, 0x2000, 0x8f])})(lambda c: T.eq(band(c, const(0xa0)), ZEROW))
E('XMComparisonAllInBounds')(lambda c: has(c, CB))
E('XMComparisonAnyOutOfBounds')(lambda c: bnot(has(c, CB)))
# matrix / quaternion / plane predicates
E('XMMatrixIsNaN')(lambda m: disj([isnan(x) for r in m for x in r]))
E('XMMatrixIsInfinite')(lambda m: disj([isinf(x) for r in m for x in r]))
E('XMMatrixIsIdentity')(lambda m: conj([feq(m[i][j], ONEF if i == j else ZEROW) for i in range(4) for j in range(4)]))
E(['XMQuaternionIsNaN', 'XMPlaneIsNaN'])(lambda v: disj([isnan(x) for x in v]))
E(['XMQuaternionIsInfinite', 'XMPlaneIsInfinite'])(lambda v: disj([isinf(x) for x in v]))
E('XMQuaternionIsIdentity')(lambda v: conj([feq(x, y) for x, y in zip(v, [ZEROW] * 3 + [ONEF])]))
E(['XMQuaternionEqual', 'XMPlaneEqual'])(lambda a, b: conj([feq(x, y) for x, y in zip(a, b)]))
E(['XMQuaternionNotEqual', 'XMPlaneNotEqual'])(lambda a, b: bnot(conj([feq(x, y) for x, y in zip(a, b)])))
# bits of a comparison record
ens('CONST_crmask', P, 'bits')(lambda: [const(0xf0), const(0x80), const(0x20), const(0x20)])
