"""C04: lane-wise operations whose result is exactly determined"""
from specs.lib import *
P = 'C04'
def E(names, mode='exact', **kw): return ens(names, P, mode, **kw)
L = lambda f: (lambda *vs: [f(*t) for t in zip(*vs)])
nn = lambda *vs: [bnot(isnan(x)) for v in vs for x in v]
E('XMVectorAndInt', 'bits')(L(band))
E('XMVectorAndCInt', 'bits')(L(lambda a, b: band(a, bnot(b))))
E('XMVectorOrInt', 'bits')(L(bor))
E('XMVectorNorInt', 'bits')(L(lambda a, b: bnot(bor(a, b))))
E('XMVectorXorInt', 'bits')(L(bxor))
E('XMVectorAdd')(L(fadd)); E('XMVectorSubtract')(L(fsub)); E('XMVectorMultiply')(L(fmul)); E('XMVectorDivide')(L(fdiv))
E('XMVectorSqrt')(L(fsqrt))
E('XMVectorScale')(lambda v, s: [fmul(x, s) for x in v])
E('XMVectorMin')(L(lambda a, b: ite(flt(a, b), a, b)))
E('XMVectorMax')(L(lambda a, b: ite(fgt(a, b), a, b)))
E('XMVectorAbs', 'exactz')(L(fabs_)); E('XMVectorNegate', 'exactz')(L(fneg))
E('XMVectorClamp', 'exactz', req=lambda v, lo, hi: [fle(a, b) for a, b in zip(lo, hi)], opts={'modes': ['i', 'n', 'x', 'i', 'n', 'w']}, sample_req=None)(
    L(lambda v, lo, hi: ite(flt(v, lo), lo, ite(flt(hi, v), hi, v))))
E('XMVectorSaturate', 'exactz', req=nn)(L(lambda v: ite(flt(v, ZEROW), ZEROW, ite(flt(ONEF, v), ONEF, v))))
E('XMVectorRound', 'exactz')(L(lambda x: f1('frne', x)))
E('XMVectorTruncate', 'exactz')(L(lambda x: f1('ftrunc', x)))
E('XMVectorFloor', 'exactz')(L(lambda x: f1('ffloor', x)))
E('XMVectorCeiling', 'exactz')(L(lambda x: f1('fceil', x)))
E('XMMin', 'exactz', req=lambda a, b: nn([a], [b]))(lambda a, b: ite(flt(a, b), a, b))
E('XMMax', 'exactz', req=lambda a, b: nn([a], [b]))(lambda a, b: ite(fgt(a, b), a, b))
E('XMMin_i32', 'bits')(lambda a, b: ite(slt(a, b), a, b))
E('XMMax_i32', 'bits')(lambda a, b: ite(slt(b, a), a, b))
