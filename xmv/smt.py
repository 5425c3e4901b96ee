"""Bit-precise back end: terms -> z3 (QF_UFBVFP), with cvc5 as a second opinion on unknown."""
import z3, time, subprocess, tempfile, os
from . import term as T

F32 = z3.Float32(); F64 = z3.Float64(); F16 = z3.FPSort(5, 11)
RNE = z3.RNE()

class Conv:
    def __init__(self):
        self.c = {}; self.fc = {}; self.uf = {}
    def fp(self, t):
        """floating-point view of a term"""
        r = self.fc.get(t.id)
        if r is not None: return r
        op = t.op
        s = {32: F32, 64: F64, 16: F16}[t.w]
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.fp(t.args[0]), self.fp(t.args[1])
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, a, b)
        elif op == 'fma': r = z3.fpFMA(RNE, *[self.fp(a) for a in t.args])
        elif op == 'fsqrt': r = z3.fpSqrt(RNE, self.fp(t.args[0]))
        elif op in ('ffloor', 'fceil', 'ftrunc', 'frne'):
            rm = {'ffloor': z3.RTN(), 'fceil': z3.RTP(), 'ftrunc': z3.RTZ(), 'frne': RNE}[op]
            r = z3.fpRoundToIntegral(rm, self.fp(t.args[0]))
        elif op == 'sitofp': r = z3.fpSignedToFP(RNE, self.bv(t.args[0]), s)
        elif op == 'uitofp': r = z3.fpUnsignedToFP(RNE, self.bv(t.args[0]), s)
        elif op == 'fpext' or op == 'fptrunc': r = z3.fpFPToFP(RNE, self.fp(t.args[0]), s)
        elif op == 'h2f': r = z3.fpFPToFP(RNE, z3.fpBVToFP(self.bv(t.args[0]), F16), F32)
        elif op == 'ite' and t.w == 32: r = z3.If(self.b(t.args[0]), self.fp(t.args[1]), self.fp(t.args[2]))
        else: r = z3.fpBVToFP(self.bv(t), s)
        self.fc[t.id] = r
        return r
    def b(self, t):
        """boolean view of a 1-bit term"""
        k = ('b', t.id)
        r = self.c.get(k)
        if r is not None: return r
        op = t.op
        if op == 'const': r = z3.BoolVal(bool(t.data))
        elif op == 'band': r = z3.And(self.b(t.args[0]), self.b(t.args[1]))
        elif op == 'bor': r = z3.Or(self.b(t.args[0]), self.b(t.args[1]))
        elif op == 'bxor': r = z3.Xor(self.b(t.args[0]), self.b(t.args[1]))
        elif op == 'ite': r = z3.If(self.b(t.args[0]), self.b(t.args[1]), self.b(t.args[2]))
        elif op == 'eq': r = self.bv(t.args[0]) == self.bv(t.args[1])
        elif op == 'ult': r = z3.ULT(self.bv(t.args[0]), self.bv(t.args[1]))
        elif op == 'ule': r = z3.ULE(self.bv(t.args[0]), self.bv(t.args[1]))
        elif op == 'slt': r = self.bv(t.args[0]) < self.bv(t.args[1])
        elif op == 'sle': r = self.bv(t.args[0]) <= self.bv(t.args[1])
        elif op == 'feq': r = z3.fpEQ(self.fp(t.args[0]), self.fp(t.args[1]))
        elif op == 'flt': r = z3.fpLT(self.fp(t.args[0]), self.fp(t.args[1]))
        elif op == 'fle': r = z3.fpLEQ(self.fp(t.args[0]), self.fp(t.args[1]))
        elif op == 'funo':
            a, b = self.fp(t.args[0]), self.fp(t.args[1])
            r = z3.fpIsNaN(a) if t.args[0] is t.args[1] else z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        else: r = self.bv(t) == z3.BitVecVal(1, 1)
        self.c[k] = r
        return r
    def bv(self, t):
        r = self.c.get(t.id)
        if r is not None: return r
        for s in T.subterms([t]):
            if s.id not in self.c: self.c[s.id] = self._bv(s)
        return self.c[t.id]
    def _bv(self, t):
        op, w = t.op, t.w
        if op == 'const': return z3.BitVecVal(t.data, w)
        if op == 'var': return z3.BitVec(t.data, w)
        if w == 1 and op in ('band', 'bor', 'bxor', 'eq', 'ult', 'ule', 'slt', 'sle', 'feq', 'flt', 'fle', 'funo'):
            return z3.If(self.b(t), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        a = [self.bv(x) for x in t.args] if op not in ('ite',) else None
        if op == 'band': return a[0] & a[1]
        if op == 'bor': return a[0] | a[1]
        if op == 'bxor': return a[0] ^ a[1]
        if op == 'ite': return z3.If(self.b(t.args[0]), self.bv(t.args[1]), self.bv(t.args[2]))
        if op == 'concat': return z3.Concat(*reversed(a))
        if op == 'extract': return z3.Extract(t.data + w - 1, t.data, a[0])
        if op == 'zext': return z3.ZeroExt(w - t.args[0].w, a[0])
        if op == 'sext': return z3.SignExt(w - t.args[0].w, a[0])
        if op == 'add': return a[0] + a[1]
        if op == 'sub': return a[0] - a[1]
        if op == 'mul': return a[0] * a[1]
        if op == 'udiv': return z3.UDiv(a[0], a[1])
        if op == 'urem': return z3.URem(a[0], a[1])
        if op == 'sdiv': return a[0] / a[1]
        if op == 'srem': return z3.SRem(a[0], a[1])
        if op == 'shl': return a[0] << a[1]
        if op == 'lshr': return z3.LShR(a[0], a[1])
        if op == 'ashr': return a[0] >> a[1]
        if op == 'fptosi': return z3.fpToSBV(z3.RTZ(), self.fp(t.args[0]), z3.BitVecSort(w))
        if op == 'fptoui': return z3.fpToUBV(z3.RTZ(), self.fp(t.args[0]), z3.BitVecSort(w))
        if op == 'f2h':
            rm = {'rne': RNE, 'rtz': z3.RTZ(), 'rtp': z3.RTP(), 'rtn': z3.RTN()}[t.data]
            return z3.fpToIEEEBV(z3.fpFPToFP(rm, self.fp(t.args[0]), F16))
        if op == 'app':
            nm = t.data + '_%d' % len(a)
            f = self.uf.get(nm)
            if f is None:
                f = self.uf[nm] = z3.Function(nm, *([z3.BitVecSort(x.w) for x in t.args] + [z3.BitVecSort(w)]))
            return f(*a)
        return z3.fpToIEEEBV(self.fp(t))

class Classes(Conv):
    """over-approximation: the result of an operation is constrained only in which of NaN, +-inf, zero, finite it is
    (and in sign), which every rounding satisfies; unsat here is unsat for the exact semantics"""
    def __init__(self):
        super().__init__(); self.ax = []
    def fp(self, t):
        r = self.fc.get(t.id)
        if r is not None: return r
        if t.op not in ('fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'fma') or t.w != 32: return super().fp(t)
        x = [self.fp(a) for a in t.args]
        r = z3.FP('abs!%d' % t.id, F32); nan, inf, zero, neg = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero, z3.fpIsNegative
        def mul(a, b, q):      # class facts of the exact product: (is nan, is inf for sure)
            return z3.Or(nan(a), nan(b), z3.And(inf(a), zero(b)), z3.And(zero(a), inf(b))), z3.Or(z3.And(inf(a), z3.Not(zero(b))), z3.And(inf(b), z3.Not(zero(a))))
        A = self.ax.append
        if t.op == 'fmul':
            n, i = mul(*x, r); A(nan(r) == n); A(z3.Implies(z3.And(i, z3.Not(n)), inf(r))); A(z3.Implies(z3.Not(n), neg(r) == z3.Xor(neg(x[0]), neg(x[1])))); A(z3.Implies(z3.And(z3.Not(n), z3.Or(zero(x[0]), zero(x[1]))), zero(r)))
        elif t.op in ('fadd', 'fsub'):
            a, b = x; b = z3.fpNeg(b) if t.op == 'fsub' else b
            n = z3.Or(nan(a), nan(b), z3.And(inf(a), inf(b), neg(a) != neg(b))); A(nan(r) == n)
            for u in (a, b): A(z3.Implies(z3.And(inf(u), z3.Not(n)), z3.And(inf(r), neg(r) == neg(u))))
            A(z3.Implies(z3.And(z3.Not(n), neg(a) == neg(b)), neg(r) == neg(a)))
            A(z3.Implies(z3.And(z3.Not(n), zero(a)), z3.fpEQ(r, b))); A(z3.Implies(z3.And(z3.Not(n), zero(b)), z3.fpEQ(r, a)))
        elif t.op == 'fdiv':
            a, b = x; n = z3.Or(nan(a), nan(b), z3.And(inf(a), inf(b)), z3.And(zero(a), zero(b))); A(nan(r) == n); o = z3.Not(n)
            A(z3.Implies(z3.And(o, z3.Or(inf(a), zero(b))), inf(r))); A(z3.Implies(z3.And(o, z3.Or(inf(b), zero(a))), zero(r))); A(z3.Implies(o, neg(r) == z3.Xor(neg(a), neg(b))))
        elif t.op == 'fsqrt':
            a, = x; n = z3.Or(nan(a), z3.And(neg(a), z3.Not(zero(a)))); A(nan(r) == n); A(z3.Implies(z3.Not(n), z3.And(inf(r) == inf(a), zero(r) == zero(a), neg(r) == neg(a))))
        else:
            a, b, c = x; n0, i = mul(a, b, None); sg = z3.Xor(neg(a), neg(b)); n = z3.Or(n0, nan(c), z3.And(i, inf(c), sg != neg(c))); A(nan(r) == n); o = z3.Not(n)
            A(z3.Implies(z3.And(o, i), z3.And(inf(r), neg(r) == sg))); A(z3.Implies(z3.And(o, inf(c)), z3.And(inf(r), neg(r) == neg(c)))); A(z3.Implies(z3.And(o, sg == neg(c)), neg(r) == sg))
            A(z3.Implies(z3.And(o, z3.Or(zero(a), zero(b))), z3.fpEQ(r, c)))
        self.fc[t.id] = r
        return r

def by_classes(cond, assumes, timeout=5.0):
    """True: unsatisfiable already by the classes of the intermediate results"""
    c = Classes(); s = z3.Solver(); s.set('timeout', int(timeout * 1000))
    fs = [c.b(a) for a in assumes] + [c.b(cond)]
    for f in fs + c.ax: s.add(f)
    t0 = time.time(); r = s.check()
    stats['z3_calls'] += 1; stats['z3_time'] += time.time() - t0
    return r == z3.unsat

def model_inputs(m, terms):
    env = {}
    for t in T.subterms(terms):
        if t.op == 'var':
            v = m.eval(z3.BitVec(t.data, t.w), model_completion=True)
            env[t.data] = v.as_long()
    return env

stats = {'z3_calls': 0, 'z3_time': 0.0, 'cvc5_calls': 0, 'cvc5_time': 0.0}

def check(cond, assumes=(), timeout=20.0, use_cvc5=True):
    """is cond (1-bit term) satisfiable together with assumes?  -> ('unsat'|'sat'|'unknown', env)"""
    c = Conv()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    fs = [c.b(a) for a in assumes] + [c.b(cond)]
    for f in fs: s.add(f)
    t0 = time.time()
    r = s.check()
    stats['z3_calls'] += 1; stats['z3_time'] += time.time() - t0
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat: return 'sat', model_inputs(s.model(), list(assumes) + [cond])
    if use_cvc5:
        t0 = time.time()
        q = run_cvc5(s, timeout)
        stats['cvc5_calls'] += 1; stats['cvc5_time'] += time.time() - t0
        if q in ('unsat',): return q, None
    return 'unknown', None

def run_cvc5(s, timeout):
    smt = '(set-logic ALL)\n' + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f: f.write(smt)
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--fp-exp', p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout + 10)
        o = r.stdout.strip().split('\n')[0]
        return o
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)
