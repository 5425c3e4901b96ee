"""C09: matrix algebra"""
from specs.lib import *
P = 'C09'
def E(names, mode='real', **kw): return ens(names, P, mode, **kw)
E('XMMatrixMultiply')(mmul4)
E('XMMatrixMultiplyTranspose')(lambda A, B: transp(mmul4(A, B)))
E('XMMatrixTranspose', 'bits')(transp)
E('XMMatrixIdentity', 'bits')(lambda: IDENT)
E('XMMatrixSet', 'bits')(lambda *a: list(a))
E('XMMatrixVectorTensorProduct', 'exact')(lambda a, b: [[fmul(x, y) for y in b] for x in a])
E('XMMatrixDeterminant')(lambda M: splat(det4(M)))
E('XMMatrixInverse', opts={'tmo': 60})(lambda oV, M: [minverse(M)[0], splat(det4(M))])
E('XMMatrixInverse_None', opts={'tmo': 60})(lambda M: minverse(M)[0])
