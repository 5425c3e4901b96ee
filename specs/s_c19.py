"""C19: memory safety, absence of panics, only enabled instruction sets - for every function.

Checked on builds with debug assertions compiled out (they state preconditions) and overflow checks kept, for every
bit pattern of every input.  Functions with an index/exponent/constant parameter get two clauses: no panic within the
documented range, and no memory or instruction-set violation for any argument at all (a bounds-check panic is allowed)."""
from specs.lib import *
from xmv import spec
P = 'C19'
RNG = {}       # function -> {input word: number of values in its documented range}
def rng(names, d):
    for n in names.split(): RNG[n] = d
rng('XMConvertVectorIntToFloat XMConvertVectorUIntToFloat XMConvertVectorFloatToInt XMConvertVectorFloatToUInt', {4: 32})
rng('XMVectorGetByIndex XMVectorGetIntByIndex', {4: 4})
rng('XMVectorSetByIndex XMVectorSetIntByIndex', {5: 4})
rng('XMVectorSwizzle', {4: 4, 5: 4, 6: 4, 7: 4})
rng('XMVectorPermute', {8: 8, 9: 8, 10: 8, 11: 8})
rng('XMVectorRotateLeft XMVectorRotateRight', {4: 4})
rng('XMVectorShiftLeft', {8: 4})
rng('XMVectorInsert', {8: 4, 9: 2, 10: 2, 11: 2, 12: 2})
rng('XMVectorSelectControl', {0: 2, 1: 2, 2: 2, 3: 2})
rng('XMVectorSplatConstant', {1: 32})
for n in API:
    if n in RNG:
        d = RNG[n]; gens = {}; pos = 0
        for i, k in enumerate(API[n]['in']):
            if pos in d: gens[i] = ('int', 0, d[pos] - 1)
            pos += WORDS[k]
        add(n, P, 'safe', None, req=lambda *a, d=d: [ult(w, const(d[k])) for k, w in enumerate(spec.flat(a)) if k in d], gens=gens, label='safe-in-range')
        add(n, P, 'safe', None, label='no-memory-error', opts={'panic_ok': 1})
    else:
        add(n, P, 'safe', None, label='safe')
