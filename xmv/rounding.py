"""Rounding-error bounds proved from the structure of the code's own floating-point expression.

Standard model: every +, -, *, /, sqrt, fma of the code returns the exact result times (1+d), |d| <= u = 2^-24 (no overflow or
underflow).  For each output the expression is expanded without cancelling anything:  A = the sum of the absolute values of all
monomials, k = the largest number of rounding factors any monomial carries.  Then  |computed - exact| <= gamma_k * A(|inputs|),
gamma_k = k u / (1 - k u)  (Higham, Accuracy and Stability, ch. 3).  Square roots and divisors are relatively accurate when they are
a monomial or a sum of even monomials with coefficients of one sign; any other divisor or radicand D contributes the factor
1 + 2 kappa(D), kappa = A(D)/|D| its condition number (as long as gamma_k kappa <= 1/2).  The exact value is the contract's (proved separately over
the reals), and A is compared monomial by monomial with the same sum of the *contract's* expression, so the reported bound
  |result - contract| <= ratio * gamma_k * A_contract
does not depend on how the code is written.  A branch that returns
zero when a length is zero is left out of the claim (it is exact).  Where the analysis does not apply nothing is claimed (sampling covers it)."""
import math, time
from fractions import Fraction as F
from . import term as T

class No(Exception): pass

class V:
    __slots__ = ('S', 'A', 'k')
    def __init__(s, S, A, k): s.S = S; s.A = A; s.k = k

MAXTERMS = 4000
SINCOS = ('sin', 'cos')
POSK = {}          # atom -> polynomial it stands for

def add(p, q, sg=1):
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + sg * c
        if c: r[m] = c
        else: r.pop(m, None)
    return r
def mmul(m, n):
    d = dict(m)
    for a, e in n:
        e2 = d.get(a, 0) + e
        if e2: d[a] = e2
        else: d.pop(a, None)
    return frozenset(d.items())
def mul(p, q):
    if len(p) * len(q) > MAXTERMS: raise No('size')
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            x = mmul(m, n); v = r.get(x, 0) + c * d
            if v: r[x] = v
            else: r.pop(x, None)
    return expand(r)
def expand(p):
    """positive whole powers of a sum are multiplied out again"""
    for m in list(p):
        for a, e in m:
            if a in POSK and e >= 1:
                c = p.pop(m); rest = mmul(m, frozenset([(a, -1)]))
                return expand(add(p, mul({rest: c}, POSK[a])))
    return p
def evenm(m): return all(a in POSK or (a[0] == 'D' and F(e).denominator == 2) or (F(e).denominator == 1 and e % 2 == 0) for a, e in m)
def rel(v):
    """relatively accurate: every monomial carries the same sign, so nothing cancels"""
    if v.S is not None and v.A and set(v.S) != set(v.A): return False
    if v.S is None or not v.A: return False
    if len(v.A) == 1:
        (m, c), = v.A.items(); return abs(v.S.get(m, 0)) == c
    return (v.S == v.A or v.S == {m: -c for m, c in v.A.items()}) and all(evenm(m) for m in v.A)
def atom(v):
    """a relatively accurate value as one monomial (coefficient, monomial)"""
    if len(v.A) == 1:
        (m, c), = v.A.items(); return c if v.S[m] > 0 else -c, m
    key = ('P', frozenset(v.A.items())); POSK[key] = v.A
    return (1 if v.S == v.A else -1), frozenset([(key, 1)])
def isp2(c): return c and abs(math.frexp(float(c))[0]) == .5

def constv(t):
    x = T.b2f(t.data)
    if not math.isfinite(x): raise No('constant')
    p = {frozenset(): F(x)} if x else {}
    return V(p, {m: abs(c) for m, c in p.items()}, 0)
def mono(v): return len(v.A) == 1 and next(iter(v.A)) == frozenset() and v.S is not None and v.k == 0

class An:
    def __init__(s): s.memo = {}; s.cnd = {}; s.trig = False
    def datom(s, v, root=False):
        """a value D that may cancel: relative error gamma * kappa(D), kappa = A(D)/|D|"""
        if not v.S: raise No('divisor or root argument of unknown sign')
        lead = v.S[min(v.S, key=lambda m: sorted(map(repr, m)))]; n = {m: c / lead for m, c in v.S.items()}
        if root: lead, n = F(1), v.S
        key = ('D', frozenset(n.items())); A = {m: c / abs(lead) for m, c in v.A.items()}
        o = s.cnd.get(key)
        s.cnd[key] = A if o is None else {m: max(A.get(m, 0), o.get(m, 0)) for m in set(A) | set(o)}
        return lead, frozenset([(key, 1)])
    def val(s, t):
        r = s.memo.get(t.id)
        if r is None:
            r = s.memo[t.id] = s._val(t)
        if isinstance(r, No): raise r
        return r
    def _val(s, t):
        op = t.op
        if t.w != 32: raise No('width')
        if op == 'const': return constv(t)
        if op == 'var':
            p = {frozenset([(t.data, 1)]): F(1)}; return V(p, p, 0)
        if op in ('fadd', 'fsub'):
            a, b = s.val(t.args[0]), s.val(t.args[1]); sg = 1 if op == 'fadd' else -1
            S = None if a.S is None or b.S is None else add(a.S, b.S, sg)
            if not b.A: return a
            if not a.A: return V(S, b.A, b.k)
            return V(S, add(a.A, b.A), max(a.k, b.k) + 1)
        if op == 'fmul':
            a, b = s.val(t.args[0]), s.val(t.args[1])
            ex = (mono(a) and isp2(next(iter(a.A.values())))) or (mono(b) and isp2(next(iter(b.A.values())))) or not a.A or not b.A
            return V(None if a.S is None or b.S is None else mul(a.S, b.S), mul(a.A, b.A), a.k + b.k + (0 if ex else 1))
        if op == 'fma':
            a, b, c = (s.val(x) for x in t.args)
            return V(None if None in (a.S, b.S, c.S) else add(mul(a.S, b.S), c.S), add(mul(a.A, b.A), c.A), max(a.k + b.k, c.k) + 1)
        if op == 'fdiv':
            a, b = s.val(t.args[0]), s.val(t.args[1])
            c, m = atom(b) if rel(b) else s.datom(b); inv = {frozenset((x, -e) for x, e in m): F(1) / abs(c)}
            return V(None if a.S is None else mul(a.S, {k: v * (1 if c > 0 else -1) for k, v in inv.items()}), mul(a.A, inv), a.k + 2 * b.k + 1)
        if op == 'fsqrt':
            a = s.val(t.args[0])
            if not a.A: return a
            c, m = atom(a) if rel(a) else s.datom(a, True)
            if c < 0: raise No('negative root')
            if c != 1:
                r = F(math.isqrt(c.numerator), math.isqrt(c.denominator)) if c > 0 else 0
                if r * r != c: raise No('root of constant')
            else: r = F(1)
            if not all(x in POSK or (F(e) / 2).denominator == 1 for x, e in m) : 
                m2 = frozenset((x, F(e) / 2) for x, e in m)
            else: m2 = frozenset((x, F(e) / 2 if F(e).denominator != 1 or e % 2 else e // 2) for x, e in m)
            S = None if any(x not in POSK and not (x[0] == 'D' and e == F(1, 2)) for x, e in m2) else {m2: r}
            return V(S, {m2: r}, a.k + 1)
        if op in ('bxor', 'band') and any(x.op == 'const' for x in t.args):
            x, c = t.args if t.args[1].op == 'const' else t.args[::-1]
            if op == 'bxor' and c.data == 0x80000000:
                a = s.val(x); return V(None if a.S is None else {m: -v for m, v in a.S.items()}, a.A, a.k)
            if op == 'band' and c.data == 0x7fffffff:
                a = s.val(x)
                if a.S == a.A and all(evenm(m) for m in a.A): return a
                return V(None, a.A, a.k)
        if op == 'ite':
            c, p, q = t.args
            if c.op in ('flt', 'fle', 'feq') and set(c.args) == {p, q}: kc = None
            else: kc = s.cond(c)
            if kc is not None and kc is not s: return s.val(p if kc else q)
            while c.op == 'bxor' and c.args[1] is T.TRUE: c, p, q = c.args[0], q, p
            z0 = lambda x: x.op == 'const' and (x.data & 0x7fffffff) == 0
            if c.op in ('feq', 'flt', 'fle') and any(map(z0, c.args)):      # in the branch where x = 0, x is 0
                x = c.args[1] if z0(c.args[0]) else c.args[0]; nn = x.op == 'fsqrt' or s.nonneg(x)
                sub = lambda y: T.subst([y], {x.id: T.const(0)})[0]
                if c.op == 'feq': p = sub(p)
                elif nn and c.op == 'flt' and z0(c.args[0]): q = sub(q)
                elif nn and c.op == 'fle' and z0(c.args[1]): p = sub(p)
            a, b = s.val(p), s.val(q); A = dict(a.A)
            if c.op in ('feq', 'flt', 'fle') and any(map(z0, c.args)) and (not a.A or not b.A):
                # zero-length case of a normalisation: the claim is for the other one
                return V(b.S if not a.A else a.S, b.A if not a.A else a.A, max(a.k, b.k))
            for m, v in b.A.items(): A[m] = max(v, A.get(m, 0))
            return V(None, A, max(a.k, b.k))
        if op in ('band', 'bor'):
            raise No('mask')
        if op == 'app' and t.data in SINCOS:
            # contract of the sine and cosine (C14): error at most 6e-7 + 1.3e-7 |x|, i.e. gamma_11 + gamma_3 |x|; Lipschitz constant 1
            a = s.val(t.args[0]); s.trig = True; one = {frozenset(): F(1)}
            return V({frozenset([((t.data, frozenset(a.S.items())), 1)]): F(1)} if a.S is not None else None, add(one, a.A), max(11, a.k + 3))
        raise No(op if op != 'app' else 'app ' + str(t.data))
    def cond(s, c):
        """True/False: decided for finite values; s: the same for the computed and for the exact values"""
        if c.op == 'const': return bool(c.data)
        if c.op == 'funo': return False
        if c.op in ('feq', 'flt', 'fle'):
            a, b = c.args
            for x, y, left in ((a, b, False), (b, a, True)):       # comparison with an infinity
                if y.op == 'const' and (y.data & 0x7fffffff) == 0x7f800000:
                    if c.op == 'feq': return False
                    pos = y.data == 0x7f800000; return pos != left
            z = [x.op == 'const' and (x.data & 0x7fffffff) == 0 for x in (a, b)]
            va, vb = s.val(a), s.val(b)
            if va.k == 0 and vb.k == 0 and all(x.op in ('var', 'const') for x in (a, b)): return s
            if (z[0] and (rel(vb) or s.signed(b))) or (z[1] and (rel(va) or s.signed(a))): return s
            if c.op == 'feq' and any(z):      # not zero, and computed as not zero, while gamma_k kappa <= 1/2
                v = vb if z[0] else va
                if v.S: s.datom(v, True); return s
            raise No('comparison of rounded values')
        if c.op in ('band', 'bor', 'bxor'):
            x, y = s.cond(c.args[0]), s.cond(c.args[1])
            if c.op == 'band':
                if x is False or y is False: return False
                if x is True: return y
                if y is True: return x
            elif c.op == 'bor':
                if x is True or y is True: return True
                if x is False: return y
                if y is False: return x
            elif isinstance(x, bool) and isinstance(y, bool): return x != y
            return s
        if c.op in ('eq', 'ult', 'ule', 'slt', 'sle') and all(x.op in ('var', 'const') for x in c.args): return s
        raise No('condition ' + c.op)
    def nonneg(s, x):
        try: v = s.val(x)
        except No: return False
        return v.S is not None and v.S == v.A and all(evenm(m) for m in v.A)
    def signed(s, t):
        """a root: zero exactly when its argument is"""
        return t.op == 'fsqrt'

def bound(code, spec):
    """-> (k, ratio) or raises No"""
    x, y = An(), An(); a = x.val(code); b = y.val(spec)
    if not a.A: return 0, F(0)
    r = F(0)
    for key, A in x.cnd.items():
        B = y.cnd.get(key)
        if B is None: raise No('divisor the contract does not have')
        for m, c in A.items():
            if not B.get(m): raise No('divisor computed with monomials the contract does not have')
            r = max(r, c / B[m])
    for m, c in a.A.items():
        d = b.A.get(m)
        if not d: raise No('monomial the contract does not have')
        r = max(r, c / d)
    k = a.k
    if a.S is not None and b.S is not None and a.S != b.S:     # constants rounded differently
        if set(a.S) != set(b.S): raise No('other constants')
        k += math.ceil(max(abs(a.S[m] - b.S[m]) / abs(b.S[m]) for m in a.S) * 2 ** 24)
    return k, r

def analyse(c, run, sw, more, budget=4.0):
    """per output of a `real` clause: (index, k, ratio) or (index, reason); `more` re-executes with the sine/cosine contracts"""
    t0 = time.time(); out = []; acc = None
    for j, (o, s) in enumerate(zip(run.outs, sw)):
        if s is None or s.w != 32: continue
        if time.time() - t0 > budget: out.append((j, 'budget')); continue
        try: out.append((j,) + bound(o, s))
        except (No, RecursionError) as e:
            try:
                if any(t.op == 'app' and t.data in SINCOS for t in T.subterms([s])):
                    if acc is None: acc = more()
                    out.append((j,) + bound(acc[j], s)); continue
            except (No, RecursionError) as e2: e = e2
            out.append((j, str(e) or 'recursion'))
    return out
