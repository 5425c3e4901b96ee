"""C20: the operator layer"""
from specs.lib import *
P = 'C20'
def E(names, mode='exact', **kw): return ens(names, P, mode, **kw)
V, M = 'XMVector_', 'XMMatrix_'
m2 = lambda f: (lambda a, b: [[f(x, y) for x, y in zip(r, s)] for r, s in zip(a, b)])
ms = lambda f: (lambda a, s: [[f(x, s) for x in r] for r in a])
for op, f in (('add', fadd), ('sub', fsub), ('mul', fmul), ('div', fdiv)):
    E([V + op, V + op + '_assign'])(lambda a, b, f=f: [f(x, y) for x, y in zip(a, b)])
    if op in ('add', 'sub'): E([M + op, M + op + '_assign'])(m2(f))
    else:
        E([V + op + '_f32', V + op + '_assign_f32'])(lambda a, s, f=f: [f(x, s) for x in a])
        E([M + op + '_f32', M + op + '_assign_f32'])(ms(f))
E('f32_mul_XMVector')(lambda s, v: [fmul(x, s) for x in v])
E('f32_mul_XMMatrix')(lambda s, a: [[fmul(x, s) for x in r] for r in a])
E([M + 'mul', M + 'mul_assign'], 'real')(mmul4)
E(V + 'neg', 'exactz')(lambda v: vneg(v)); E(M + 'neg', 'exactz')(lambda a: [vneg(r) for r in a])
E(V + 'eq', 'bits')(lambda a, b: conj([feq(x, y) for x, y in zip(a, b)]))
E(M + 'eq', 'bits')(lambda a, b: conj([feq(x, y) for x, y in zip(flatw(a), flatw(b))]))
E([V + 'deref', V + 'from', M + 'deref', M + 'from16', M + 'from44', M + 'into16', M + 'into44'], 'bits')(lambda a: a)
E(V + 'deref_mut', 'bits')(lambda a, b: b)
E([V + 'set', M + 'set'], 'bits')(lambda *a: list(a))
