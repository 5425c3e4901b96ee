"""Ideal-real back end.

Program terms are interpreted over the real numbers (no rounding, no overflow, inputs finite):
fadd/fsub/fmul/fdiv/fma/fsqrt are the field operations, comparisons are comparisons of reals,
bit masks are understood where they mean abs / negate / copysign / select.
Two terms are proved equal by case splitting on the signs of canonical polynomials; every leaf
is an identity of rational functions over the inputs and algebraic/transcendental atoms, checked by
exact expansion.  Leaves that are not identities are sent to z3's nlsat with the path condition:
unsat discharges the leaf, sat is a refutation.
"""
import time
from fractions import Fraction
from . import term as T
import z3

class Unsup(Exception): pass
class Undef(Exception): pass
class Budget(Exception): pass

class Split(Exception):
    def __init__(self, key, masks): self.key = key; self.masks = masks

NEG, ZERO, POS = 1, 2, 4

# ------------------------------------------------------------------ polynomials
# monomial: tuple of (atom, exp) sorted by atom;  poly: dict monomial -> Fraction|int
ONE = {(): 1}

def pconst(c):
    if isinstance(c, Fraction) and c.denominator == 1: c = c.numerator
    return {(): c} if c else {}

def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None: r[m] = c
        else:
            v = v + c
            if v: r[m] = v
            else: del r[m]
    return r

def pneg(a): return {m: -c for m, c in a.items()}
def psub(a, b): return padd(a, pneg(b))
def pscale(a, k): return {m: c * k for m, c in a.items()} if k else {}

def mmul(m, n):
    if not m: return n
    if not n: return m
    r = []; i = j = 0; lm, ln = len(m), len(n)
    while i < lm and j < ln:
        a, b = m[i], n[j]
        if a[0] == b[0]: r.append((a[0], a[1] + b[1])); i += 1; j += 1
        elif a[0] < b[0]: r.append(a); i += 1
        else: r.append(b); j += 1
    if i < lm: r.extend(m[i:])
    if j < ln: r.extend(n[j:])
    return tuple(r)

MAXT = 60000
COEF_TOL = Fraction(1, 2 ** 21)

class Engine:
    def __init__(self, given=(), budget_s=60.0, split_limit=4000):
        self.atoms = []           # list of dicts describing atoms
        self.akey = {}
        self.rules = {}           # atom -> (poly for atom^2) reduction
        self.cache = {}
        self.t0 = time.time(); self.budget = budget_s
        self.split_limit = split_limit
        self.facts = {}           # polykey -> allowed mask
        self.leaves = 0; self.nl = 0
        self.given = []           # extra reductions: (leading monomial, replacement poly)
        self.mulcount = 0
        self.z3time = 0.0
        self.derived = {}         # polykey -> mask known from the shape of the term (sums of squares)

    def tick(self):
        if time.time() - self.t0 > self.budget: raise Budget('real back end time budget')

    # -------------------------------------------------------------- atoms
    def atom(self, kind, key, **kw):
        k = (kind, key)
        a = self.akey.get(k)
        if a is None:
            a = len(self.atoms)
            d = dict(kind=kind, key=key); d.update(kw)
            self.atoms.append(d); self.akey[k] = a
        return a

    def apoly(self, a): return {((a, 1),): 1}

    # -------------------------------------------------------------- poly mult with reduction
    def pmul(self, a, b):
        if not a or not b: return {}
        if len(a) * len(b) > 4 * MAXT: raise Budget('polynomial too large')
        self.mulcount += 1
        if self.mulcount % 64 == 0 or len(a) * len(b) > 2000: self.tick()
        r = {}
        red = False
        for m, c in a.items():
            for n, d in b.items():
                k = mmul(m, n)
                v = r.get(k)
                if v is None: r[k] = c * d
                else: r[k] = v + c * d
        r = {m: c for m, c in r.items() if c}
        return self.reduce(r)

    def reduce(self, p):
        """apply s^2 -> p rules"""
        if not self.rules and not self.given: return p
        rules, given = self.rules, self.given
        out = {}; work = p
        while work:
            nxt = {}
            for m, c in work.items():
                rest = None
                for (a, e) in m:
                    if e >= 2 and a in rules:
                        rest = tuple((x, y) if x != a else (x, e - 2) for x, y in m if not (x == a and e == 2)); rep = rules[a]; break
                if rest is None:
                    for lm, rp in given:
                        if divides(lm, m): rest = mdiv(m, lm); rep = rp; break
                if rest is None:
                    v = out.get(m); out[m] = c if v is None else v + c
                    continue
                for n, d in rep.items():
                    k = mmul(rest, n); nxt[k] = nxt.get(k, 0) + c * d
            if not nxt:
                if work is p: return p
                break
            self.mulcount += 1
            self.tick()
            work = {k: v for k, v in nxt.items() if v}
        return {k: v for k, v in out.items() if v}

    # -------------------------------------------------------------- rationals (num, den)
    def rc(self, c): return (pconst(c), ONE)

    def radd(self, x, y):
        if x[1] == y[1]: return self.norm((padd(x[0], y[0]), x[1]))
        return self.norm((padd(self.pmul(x[0], y[1]), self.pmul(y[0], x[1])), self.pmul(x[1], y[1])))

    def rneg(self, x): return (pneg(x[0]), x[1])
    def rsub(self, x, y): return self.radd(x, self.rneg(y))

    def rmul(self, x, y):
        n1, d1 = x; n2, d2 = y
        if d1 != ONE and n2 == d1: n2, d1 = ONE, ONE
        if d2 != ONE and n1 == d2: n1, d2 = ONE, ONE
        return self.norm((self.pmul(n1, n2), self.pmul(d1, d2) if d1 != ONE or d2 != ONE else ONE))

    def rdiv(self, x, y):
        if not y[0]: raise Undef('division by zero')
        return self.rmul(x, (y[1], y[0]))

    def norm(self, x):
        n, d = x
        if not n: return ({}, ONE)
        if d == ONE: return x
        if len(d) == 1 and () in d:
            k = d[()]
            return (pscale(n, Fraction(1) / k) if k != 1 else n, ONE)
        # cancel common monomial content
        g = content(d)
        if g:
            g = mgcd(g, content(n))
            if g:
                n = {mdiv(m, g): c for m, c in n.items()}; d = {mdiv(m, g): c for m, c in d.items()}
        # make den primitive with positive leading coefficient
        lm = max(d); k = d[lm]
        if k != 1:
            inv = Fraction(1) / k
            d = {m: fr(c * inv) for m, c in d.items()}; n = {m: fr(c * inv) for m, c in n.items()}
        if n == d: return (ONE, ONE)
        if len(d) <= 60 and len(n) >= len(d) and len(n) <= 3000:
            q = self.exact_div(n, d)
            if q is not None: return (q, ONE)
        if len(d) == 1 and () in d: return self.norm((n, d))
        return (n, d)

    def exact_div(self, n, d):
        """n/d if exact (only when no rewriting rules touch the involved atoms)"""
        lm = max(d, key=mkey); lc = d[lm]
        q = {}; r = dict(n); it = 0
        while r:
            m = max(r, key=mkey)
            if not divides(lm, m): return None
            k = mdiv(m, lm); c = fr(Fraction(r[m]) / lc)
            q[k] = c
            for a, b in d.items():
                t = mmul(a, k); v = r.get(t, 0) - c * b
                if v: r[t] = v
                else: r.pop(t, None)
            it += 1
            if it > 400: return None
        return q

    def pkey(self, p):
        """canonical key and sign flip of a polynomial (primitive, positive leading coeff)"""
        lm = max(p); k = p[lm]
        inv = Fraction(1) / k
        key = tuple(sorted((m, fr(c * inv)) for m, c in p.items()))
        return key, k < 0

    # -------------------------------------------------------------- signs
    def static_mask(self, p):
        """sign information that needs no decision"""
        if not p: return ZERO
        if len(p) == 1 and () in p: return POS if p[()] > 0 else NEG
        allnn = True; strict = False
        sgn = None
        for m, c in p.items():
            for a, e in m:
                at = self.atoms[a]
                if e % 2 == 0 or at.get('nn'): continue
                allnn = False; break
            if not allnn: break
            s = c > 0
            if sgn is None: sgn = s
            elif sgn != s: allnn = False; break
            if all(self.atoms[a].get('pos') for a, e in m): strict = True
        if allnn:
            if strict: return POS if sgn else NEG
            return (POS | ZERO) if sgn else (NEG | ZERO)
        return NEG | ZERO | POS

    def sign(self, p, ctx, want):
        """is sign(p) in want?  True/False or raises Split"""
        m = self.static_mask(p)
        if m & ~want == 0: return True
        if m & want == 0: return False
        p = strip_pos(self, p)
        m = self.static_mask(p)
        if m & ~want == 0: return True
        if m & want == 0: return False
        key, flip = self.pkey(p)
        w = swap(want) if flip else want
        mm = (swap(m) if flip else m) & self.facts.get(key, 7) & self.derived.get(key, 7)
        cm = ctx.get(key)
        if cm is not None: mm &= cm; ctx.used.add(key)
        if mm & ~w == 0: return True
        if mm & w == 0: return False
        raise Split(key, [mm & w, mm & ~w & 7])

    def rsign(self, x, ctx, want):
        n, d = x
        if d == ONE: return self.sign(n, ctx, want)
        # sign(n/d): decide d's sign first
        if self.sign(d, ctx, ZERO): raise Undef('division by zero')
        dp = self.sign(d, ctx, POS)
        return self.sign(n, ctx, want if dp else swap(want))

    # -------------------------------------------------------------- evaluation
    def ev(self, t, ctx):
        """value of a term: ('c', bits) | ('r', rat) | ('b', bool) | ('i', rat integer)"""
        lst = self.cache.get(t.id)
        if lst is not None:
            for need, v in lst:
                ok = True
                for k, mk_ in need:
                    c = ctx.get(k)
                    if c is None or c & ~mk_: ok = False; break
                if ok:
                    for k, _ in need: ctx.used.add(k)
                    if isinstance(v, Exception): raise v
                    return v
        outer = ctx.used; ctx.used = set()
        try:
            try:
                v = self.ev1(t, ctx)
            except Undef as e:
                v = e
            need = tuple((k, ctx[k]) for k in ctx.used)
            self.cache.setdefault(t.id, []).append((need, v))
        finally:
            outer |= ctx.used; ctx.used = outer
        if isinstance(v, Exception): raise v
        return v

    def num(self, v):
        if v[0] == 'r': return v[1]
        if v[0] == 'c':
            b = v[1]
            e = (b >> 23) & 0xff
            if e == 0xff: raise Undef('non-finite constant')
            return self.rc(Fraction(T.b2f(b)))
        raise Unsup('numeric view of %s' % v[0])

    def isfin(self, v): return v[0] != 'c' or ((v[1] >> 23) & 0xff) != 0xff

    def boolv(self, t, ctx):
        v = self.ev(t, ctx)
        if v[0] == 'b': return v[1]
        if v[0] == 'c': return bool(v[1])
        raise Unsup('bool')

    def ev1(self, t, ctx):
        op = t.op
        if op == 'const':
            return ('b', bool(t.data)) if t.w == 1 else ('c', t.data)
        if op == 'var':
            if t.w != 32: raise Unsup('var width')
            if t.data.startswith(('uninit', 'undef')): raise Unsup('uninitialised value')
            return ('r', (self.apoly(self.atom('var', t.data)), ONE))
        if op == 'ite':
            return self.ev(t.args[1] if self.boolv(t.args[0], ctx) else t.args[2], ctx)
        if t.w == 1:
            if op == 'band':
                try:
                    if not self.boolv(t.args[0], ctx): return ('b', False)
                except Undef:
                    if not self.boolv(t.args[1], ctx): return ('b', False)
                    raise
                return ('b', self.boolv(t.args[1], ctx))
            if op == 'bor':
                try:
                    if self.boolv(t.args[0], ctx): return ('b', True)
                except Undef:
                    if self.boolv(t.args[1], ctx): return ('b', True)
                    raise
                return ('b', self.boolv(t.args[1], ctx))
            if op == 'bxor': return ('b', self.boolv(t.args[0], ctx) != self.boolv(t.args[1], ctx))
            if op in ('feq', 'flt', 'fle', 'funo'):
                a, b = self.ev(t.args[0], ctx), self.ev(t.args[1], ctx)
                fa, fb = self.isfin(a), self.isfin(b)
                if op == 'funo': return ('b', (not fa and T.is_nan_bits(a[1])) or (not fb and T.is_nan_bits(b[1])))
                if not fa or not fb:
                    if a[0] == 'c' and b[0] == 'c':
                        return ('b', bool(T.fcmp(op, T.const(a[1]), T.const(b[1])).data))
                    bits = a[1] if not fa else b[1]
                    if T.is_nan_bits(bits): return ('b', False)
                    if op == 'feq': return ('b', False)
                    neg = bool(bits >> 31)
                    # finite vs infinity
                    if not fb: return ('b', not neg)
                    return ('b', neg)
                d = self.rsub(self.num(a), self.num(b))
                return ('b', self.rsign(d, ctx, {'feq': ZERO, 'flt': NEG, 'fle': NEG | ZERO}[op]))
            if op in ('eq', 'ult', 'ule', 'slt', 'sle'):
                a, b = self.ev(t.args[0], ctx), self.ev(t.args[1], ctx)
                return ('b', self.cmp_int(op, a, b, t.args[0].w, ctx))
            if op == 'extract':
                a = self.ev(t.args[0], ctx)
                if a[0] == 'c': return ('b', bool(a[1] >> t.data & 1))
                if a[0] == 'r' and t.data == 31: return ('b', self.rsign(a[1], ctx, NEG))
                if a[0] == 'i' and t.data == t.args[0].w - 1: return ('b', self.rsign(a[1], ctx, NEG))
                raise Unsup('bit extract')
            raise Unsup('bool op ' + op)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.num(self.ev(t.args[0], ctx)), self.num(self.ev(t.args[1], ctx))
            if op == 'fadd':
                r = self.radd(a, b)
                if r[1] == ONE and a[1] == ONE and b[1] == ONE and len(r[0]) < 400 and self.is_nn(a[0]) and self.is_nn(b[0]): self.note_nn(r[0])
                return ('r', r)
            if op == 'fsub': return ('r', self.rsub(a, b))
            if op == 'fmul':
                r = self.rmul(a, b)
                if r[1] == ONE and a[1] == ONE and len(r[0]) < 400 and a == b: self.note_nn(r[0])
                return ('r', r)
            if not b[0] or self.sign(b[0], ctx, ZERO): raise Undef('division by zero')
            return ('r', self.rdiv(a, b))
        if op == 'fma':
            a, b, c = [self.num(self.ev(x, ctx)) for x in t.args]
            r = self.radd(self.rmul(a, b), c)
            if r[1] == ONE and a == b and a[1] == ONE and c[1] == ONE and len(r[0]) < 400 and self.is_nn(c[0]): self.note_nn(r[0])
            return ('r', r)
        if op == 'fsqrt':
            return ('r', self.rsqrt(self.num(self.ev(t.args[0], ctx)), ctx))
        if op in ('ffloor', 'fceil', 'ftrunc', 'frne'):
            a = self.ev(t.args[0], ctx)
            return ('r', self.rfun(op, [self.num(a)], ctx))
        if op == 'app':
            if t.data == 'undef': raise Undef('outside the domain')
            return ('r', self.rfun(t.data, [self.num(self.ev(x, ctx)) for x in t.args], ctx))
        if op == 'sitofp':
            a = self.ev(t.args[0], ctx)
            if a[0] == 'i': return ('r', a[1])
            if a[0] == 'c':
                w = t.args[0].w; v = a[1]; v = v - (1 << w) if v >> (w - 1) else v
                return ('r', self.rc(v))
            if a[0] == 'r': return ('r', self.rfun('sitofp_bits', [a[1]], ctx))
        if op == 'fptosi':
            a = self.num(self.ev(t.args[0], ctx))
            return ('i', self.rfun('ftrunc', [a], ctx))
        if op in ('band', 'bor', 'bxor'):
            return self.bits(op, self.ev(t.args[0], ctx), self.ev(t.args[1], ctx), t.w, ctx)
        if op in ('add', 'sub', 'mul'):
            a, b = self.ev(t.args[0], ctx), self.ev(t.args[1], ctx)
            if a[0] == 'c' and b[0] == 'c': return ('c', T.arith(op, T.const(a[1], t.w), T.const(b[1], t.w)).data)
            a, b = self.toint(a, t.w), self.toint(b, t.w)
            return ('i', {'add': self.radd, 'sub': self.rsub, 'mul': self.rmul}[op](a, b))
        if op in ('zext', 'sext'):
            a = self.ev(t.args[0], ctx)
            if a[0] == 'b': return ('c', (1 if op == 'zext' else (1 << t.w) - 1) if a[1] else 0)
            if a[0] == 'c':
                return ('c', (T.mk_zext if op == 'zext' else T.mk_sext)(T.const(a[1], t.args[0].w), t.w).data)
            if a[0] == 'i': return a
        if op == 'concat':
            r = 0; pos = 0
            for x in t.args:
                v = self.ev(x, ctx)
                if v[0] == 'b': v = ('c', int(v[1]))
                if v[0] != 'c': raise Unsup('concat of non-constant')
                r |= v[1] << pos; pos += x.w
            return ('c', r)
        if op == 'extract':
            a = self.ev(t.args[0], ctx)
            if a[0] == 'c': return ('c', (a[1] >> t.data) & ((1 << t.w) - 1))
        if op in ('shl', 'lshr', 'ashr'):
            a, b = self.ev(t.args[0], ctx), self.ev(t.args[1], ctx)
            if a[0] == 'c' and b[0] == 'c': return ('c', T.arith(op, T.const(a[1], t.w), T.const(b[1], t.w)).data)
        raise Unsup('real semantics of ' + op)

    def is_nn(self, p):
        """syntactically non-negative (sum of squares built so far)"""
        if not p: return True
        if not self.static_mask(p) & NEG: return True
        key, flip = self.pkey(p)
        m = self.derived.get(key, 7)
        return not ((swap(m) if flip else m) & NEG)

    def note_nn(self, p):
        if not p: return
        key, flip = self.pkey(p)
        m = ZERO | POS
        self.derived[key] = self.derived.get(key, 7) & (swap(m) if flip else m)

    def toint(self, a, w):
        if a[0] == 'i': return a[1]
        if a[0] == 'c':
            v = a[1]; v = v - (1 << w) if v >> (w - 1) else v
            return self.rc(v)
        raise Unsup('integer view')

    def cmp_int(self, op, a, b, w, ctx):
        for v in (a, b):
            if v[0] == 'b': raise Unsup('bool cmp')
        if a[0] == 'c' and b[0] == 'c':
            return bool(T.icmp(op, T.const(a[1], w), T.const(b[1], w)).data)
        if a[0] == 'i' or b[0] == 'i':
            d = self.rsub(self.toint(a, w), self.toint(b, w))
            if op == 'eq': return self.rsign(d, ctx, ZERO)
            if op in ('slt',): return self.rsign(d, ctx, NEG)
            if op in ('sle',): return self.rsign(d, ctx, NEG | ZERO)
            raise Unsup('unsigned integer compare')
        # words holding reals
        if op == 'eq':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'c' and not self.isfin(x): return False
            return self.rsign(self.rsub(self.num(a), self.num(b)), ctx, ZERO)
        # integer order of float words: same as float order when both are non-negative
        def nn(v):
            if v[0] == 'c': return not v[1] >> 31
            return self.rsign(v[1], ctx, POS | ZERO)
        if op in ('ult', 'ule', 'slt', 'sle') and nn(a) and nn(b):
            if not self.isfin(a): return False
            if not self.isfin(b): return True
            return self.rsign(self.rsub(self.num(a), self.num(b)), ctx, NEG if op in ('ult', 'slt') else NEG | ZERO)
        raise Unsup('integer comparison of float words')

    def bits(self, op, a, b, w, ctx):
        if a[0] == 'c' and b[0] == 'c':
            return ('c', {'band': a[1] & b[1], 'bor': a[1] | b[1], 'bxor': a[1] ^ b[1]}[op])
        if a[0] == 'c': a, b = b, a
        M = (1 << w) - 1
        if b[0] == 'c' and a[0] == 'r':
            k = b[1]; r = a[1]
            if op == 'band':
                if k == 0: return ('c', 0)
                if k == M: return a
                if k == 0x7fffffff: return ('r', self.rabs(r, ctx))
                if k == 0x80000000: return ('c', 0x80000000 if self.rsign(r, ctx, NEG) else 0)
            if op == 'bor':
                if k == 0: return a
                if k == M: return ('c', M)
                if k == 0x80000000: return ('r', self.rneg(self.rabs(r, ctx)))
            if op == 'bxor':
                if k == 0: return a
                if k == 0x80000000: return ('r', self.rneg(r))
        if b[0] == 'c' and a[0] == 'i':
            k = b[1]
            if k == 0 and op != 'band': return a
            if k == 0 and op == 'band': return ('c', 0)
            if k == M and op == 'band': return a
            if op == 'band' and w == 32 and (k & (k + 1)) == 0:
                # integer modulo a power of two
                return ('i', self.rfun('mod%d' % (k + 1), [a[1]], ctx))
        raise Unsup('bit operation %s on reals' % op)

    def rabs(self, r, ctx):
        if self.rsign(r, ctx, NEG): return self.rneg(r)
        return r

    def rsqrt(self, r, ctx):
        n, d = r
        if not n: return ({}, ONE)
        if d == ONE and len(n) == 1:
            (m, c), = n.items()
            # perfect square monomial of constants
            if m == ():
                c = Fraction(c)
                if c < 0: raise Undef('sqrt of negative')
                s = isqrt_frac(c)
                if s is not None: return self.rc(s)
        if d == ONE:
            q = is_square(self, n)
            if q is not None: return self.rabs((q, ONE), ctx)
        a = None
        if self.rsign(r, ctx, NEG): raise Undef('square root of a negative number')
        if self.rsign(r, ctx, ZERO): return ({}, ONE)
        if d == ONE:
            # pull out rational square content? keep simple: canonical atom per polynomial
            key = tuple(sorted(n.items()))
            a = self.atom('sqrt', key, nn=True, rad=n)
            if a not in self.rules: self.rules[a] = n
            return (self.apoly(a), ONE)
        # sqrt(n/d) = sqrt(n*d)/|d|
        dp = self.static_mask(d)
        if dp & NEG or dp & ZERO:
            if self.sign(d, ctx, NEG): n, d = pneg(n), pneg(d)
        if is_square(self, d) is not None:
            sd = is_square(self, d)
            s = self.rsqrt((n, ONE), ctx)
            return self.rdiv(s, (self.rabs((sd, ONE), ctx)[0], ONE))
        s = self.rsqrt((self.pmul(n, d), ONE), ctx)
        return self.rdiv(s, (d, ONE))

    def rkey(self, r): return (tuple(sorted(r[0].items())), tuple(sorted(r[1].items())))

    def rfun(self, name, args, ctx):
        if name in ('sin', 'cos', 'tan', 'asin', 'atan', 'sinh', 'cosh', 'tanh') and len(args) == 1:
            r = args[0]
            if not r[0]:
                return self.rc(1 if name in ('cos', 'cosh') else 0)
            lm = max(r[0])
            if r[0][lm] < 0:
                p = self.rfun(name, [self.rneg(r)], ctx)
                return p if name in ('cos', 'cosh') else self.rneg(p)
        if name in ('ffloor', 'fceil', 'ftrunc', 'frne'):
            r = args[0]
            if r[1] == ONE and (not r[0] or (len(r[0]) == 1 and () in r[0])):
                c = Fraction(r[0].get((), 0))
                import math
                v = {'ffloor': math.floor, 'fceil': math.ceil, 'ftrunc': math.trunc, 'frne': round}[name](c)
                return self.rc(v)
            if r[1] == ONE and len(r[0]) == 1:
                (m, c), = r[0].items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].get('int'): return r
        a = self.atom('fun', (name, tuple(self.rkey(x) for x in args)), name=name, args=args)
        at = self.atoms[a]
        if name in ('ffloor', 'fceil', 'ftrunc', 'frne') or name.startswith('mod'): at['int'] = True
        if name in ('exp', 'exp2', 'cosh'): at['nn'] = True; at['pos'] = True
        if name == 'sin' and a not in self.rules:
            c = self.rfun('cos', args, ctx)
            (m, k), = c[0].items()
            self.rules[a] = psub(ONE, {((m[0][0], 2),): 1})
        if name == 'rcpest':
            # (1/x)(1+delta)
            d = self.atom('delta', ('rcp', tuple(self.rkey(x) for x in args)), bound=Fraction(3, 2 ** 13))
            return self.rdiv((padd(ONE, self.apoly(d)), ONE), args[0])
        if name == 'rsqrtest':
            d = self.atom('delta', ('rsqrt', tuple(self.rkey(x) for x in args)), bound=Fraction(3, 2 ** 13))
            return self.rdiv((padd(ONE, self.apoly(d)), ONE), self.rsqrt(args[0], ctx))
        return (self.apoly(a), ONE)

    # -------------------------------------------------------------- proving
    def add_fact(self, p, mask):
        """assume sign(p) in mask (p a polynomial)"""
        p = strip_pos(self, p)
        key, flip = self.pkey(p)
        if flip: mask = swap(mask)
        self.facts[key] = self.facts.get(key, 7) & mask

    def paths(self, goal):
        """run goal(ctx) on every consistent sign assignment; yields (ctx, result)"""
        st = [Ctx()]
        n = 0
        while st:
            ctx = st.pop(); ctx.used = set()
            n += 1
            if n > self.split_limit: raise Budget('too many cases')
            self.tick()
            try:
                r = goal(ctx)
            except Split as s:
                for m in s.masks:
                    if not m: continue
                    c = Ctx(ctx); c[s.key] = c.get(s.key, 7) & m
                    if self.quick_infeasible(c): continue
                    st.append(c)
                continue
            yield ctx, r

    prune = False
    def quick_infeasible(self, c):
        """linear test of the path condition: monomials are opaque unknowns (even ones nonnegative)"""
        if not self.prune or len(c) < 2: return False
        if not hasattr(self, 'lra'): self.lra = z3.SolverFor('QF_LRA'); self.lra.set('timeout', 500); self.lmon = {}; self.lcon = {}; self.lbase = 0; self.lside = []
        t0 = time.time()
        used = set()
        def mon(m):
            v = self.lmon.get(m)
            if v is None:
                v = self.lmon[m] = z3.Real('m%d' % len(self.lmon))
            used.add(m); return v
        def con(k, m):
            q = self.lcon.get((k, m))
            if q is None:
                e = z3.Sum([z3.RealVal('%d/%d' % (Fraction(x).numerator, Fraction(x).denominator)) * (mon(mm) if mm else z3.RealVal(1)) for mm, x in k])
                q = {NEG: e < 0, ZERO: e == 0, POS: e > 0, NEG | ZERO: e <= 0, POS | ZERO: e >= 0, NEG | POS: e != 0, 0: z3.BoolVal(False), 7: z3.BoolVal(True)}[m]
                self.lcon[(k, m)] = q
            else:
                for mm, _ in k:
                    if mm: used.add(mm)
            return q
        s = self.lra; s.push()
        try:
            for k, m in c.items(): s.add(con(k, m))
            for k, m in self.facts.items(): s.add(con(k, m))
            for m in list(used):
                if all(e % 2 == 0 or self.atoms[a].get('nn') for a, e in m): s.add(self.lmon[m] >= 0)
            r = s.check()
        finally: s.pop()
        self.lrat = getattr(self, 'lrat', 0.0) + time.time() - t0; self.lran = getattr(self, 'lran', 0) + 1
        return r == z3.unsat

    # -------------------------------------------------------------- z3 translation of a path
    def z3poly(self, p, zs):
        r = None
        for m, c in p.items():
            c = Fraction(c)
            t = z3.RealVal('%d/%d' % (c.numerator, c.denominator)) if c != 1 or not m else None
            for a, e in m:
                for _ in range(e): t = zs[a] if t is None else t * zs[a]
            r = t if r is None else r + t
        return r if r is not None else z3.RealVal(0)

    def z3vars(self):
        return [z3.Real('a%d' % i) for i in range(len(self.atoms))]

    def z3side(self, zs, used):
        """defining constraints of the atoms"""
        cs = []
        for i in used:
            at = self.atoms[i]
            if at['kind'] == 'sqrt':
                cs.append(zs[i] >= 0); cs.append(zs[i] * zs[i] == self.z3poly(at['rad'], zs))
            elif at.get('name') in ('sin', 'cos'):
                cs.append(zs[i] >= -1); cs.append(zs[i] <= 1)
            elif at.get('pos'): cs.append(zs[i] > 0)
            elif at['kind'] == 'delta':
                b = at['bound']; bv = z3.RealVal('%d/%d' % (b.numerator, b.denominator)); cs.append(zs[i] <= bv); cs.append(zs[i] >= -bv)
        return cs

    def deps(self, polys):
        seen = set(); st = []
        for p in polys:
            for m in p:
                for a, _ in m:
                    if a not in seen: seen.add(a); st.append(a)
        while st:
            a = st.pop(); at = self.atoms[a]
            more = []
            if at['kind'] == 'sqrt': more = [at['rad']]
            elif at['kind'] == 'fun':
                for r in at['args']: more += [r[0], r[1]]
            for p in more:
                for m in p:
                    for b, _ in m:
                        if b not in seen: seen.add(b); st.append(b)
        return seen

    def z3path(self, ctx, extra_polys=(), extra=(), facts=True):
        zs = self.z3vars()
        polys = [dict(k) for k in ctx] + ([dict(k) for k in self.facts] if facts else []) + list(extra_polys)
        used = self.deps(polys)
        cs = self.z3side(zs, used)
        for k, m in list(ctx.items()) + (list(self.facts.items()) if facts else []):
            p = self.z3poly(dict(k), zs)
            if m == NEG: cs.append(p < 0)
            elif m == ZERO: cs.append(p == 0)
            elif m == POS: cs.append(p > 0)
            elif m == NEG | ZERO: cs.append(p <= 0)
            elif m == POS | ZERO: cs.append(p >= 0)
            elif m == NEG | POS: cs.append(p != 0)
            elif m == 0: cs.append(z3.BoolVal(False))
        for lm, rep in self.given:
            cs.append(self.z3poly({lm: 1}, zs) == self.z3poly(rep, zs))
        return zs, cs, used

    def nlcheck(self, ctx, goal_neg, polys, timeout=10.0):
        """sat? of path /\\ goal_neg(zs).  Returns ('unsat'|'sat'|'unknown', env or None, exact: no abstracted atoms)"""
        zs, cs, used = self.z3path(ctx, polys)
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', int(timeout * 1000))
        for c in cs: s.add(c)
        s.add(goal_neg(zs))
        t0 = time.time()
        r = s.check(); self.nl += 1; self.z3time += time.time() - t0
        if r == z3.unsat: return 'unsat', None, True
        abstract = any(self.atoms[a]['kind'] in ('fun', 'delta') for a in used)
        if r == z3.sat:
            m = s.model(); env = {}
            for a in used:
                at = self.atoms[a]
                if at['kind'] == 'var': env[at['key']] = z3num(m.eval(zs[a], model_completion=True))
            return 'sat', env, not abstract
        return 'unknown', None, False

class Ctx(dict):
    used = None

def z3num(v):
    try:
        if z3.is_algebraic_value(v): v = v.approx(20)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    except Exception:
        return 0.0

def fr(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c

def mkey(m):
    return (sum(e for _, e in m), tuple((-a, e) for a, e in m))

def content(p):
    g = None
    for m in p:
        if g is None: g = dict(m)
        else:
            d = dict(m)
            g = {a: min(e, d[a]) for a, e in g.items() if a in d}
        if not g: return ()
    return tuple(sorted(g.items()))

def mgcd(a, b):
    d = dict(b)
    return tuple(sorted((x, min(e, d[x])) for x, e in a if x in d))

def divides(a, b):
    d = dict(b)
    return all(d.get(x, 0) >= e for x, e in a)

def mdiv(b, a):
    d = dict(a)
    return tuple((x, e - d.get(x, 0)) for x, e in b if e - d.get(x, 0) > 0)

def swap(m):
    return (m & ZERO) | (POS if m & NEG else 0) | (NEG if m & POS else 0)

def isqrt_frac(c):
    import math
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator: return Fraction(n, d)
    return None

def strip_pos(eng, p):
    """divide out monomial factors known to be strictly positive"""
    g = content(p)
    if not g: return p
    g = tuple((a, e) for a, e in g if eng.atoms[a].get('pos'))
    if not g: return p
    return {mdiv(m, g): c for m, c in p.items()}

def is_square(eng, d):
    if len(d) == 1:
        (m, c), = d.items()
        s = isqrt_frac(Fraction(c)) if c > 0 else None
        if s is not None and all(e % 2 == 0 for _, e in m):
            return {tuple((a, e // 2) for a, e in m): s}
    return None

# ---------------------------------------------------------------------- top level
def prove_equal(code, spec, eng, tol=None, nl_timeout=10.0, assume=None):
    """code, spec: lists of terms of equal length.
    -> list of results per output: dict(status='proved'|'refuted'|'unknown', why=..., env=...)"""
    out = []
    for k, (c, s) in enumerate(zip(code, spec)):
        if c is s:
            out.append({'status': 'proved', 'how': 'identical'}); continue
        out.append(prove_one(c, s, eng, nl_timeout, assume))
    return out

def differ(eng, a, b, ctx):
    """None if equal else the polynomial whose non-vanishing is the difference"""
    if a[0] == 'b' or b[0] == 'b' or (a[0] == 'c' and b[0] == 'c'):
        if a == b: return None
        if a[0] == 'c' and b[0] == 'c' and ((a[1] | b[1]) & 0x7fffffff) == 0: return None   # +0 / -0
        return ONE
    if not eng.isfin(a) or not eng.isfin(b): return ONE
    x = a[1] if a[0] == 'i' else eng.num(a)
    y = b[1] if b[0] == 'i' else eng.num(b)
    d = eng.rsub(x, y)
    if not d[0]: return None
    # the two sides may use differently rounded literals (pi/180, 1/3, ...): accept when every
    # coefficient agrees to COEF_TOL relative
    if len(x[0]) * len(y[1]) < 20000 and len(y[0]) * len(x[1]) < 20000:
        A, B = eng.pmul(x[0], y[1]), eng.pmul(y[0], x[1])
        if A.keys() == B.keys() and all(abs(A[m] - B[m]) <= COEF_TOL * max(abs(A[m]), abs(B[m])) for m in A): return None
    return d[0]

def prove_one(c, s, eng, nl_timeout, assume=None):
    unknown = None; n = 0
    try:
        def goal(ctx):
            if assume is not None:
                for t in assume:
                    if not eng.boolv(t, ctx): return ('vac', None)
            try: b = eng.ev(s, ctx)
            except Undef as e: return ('undef', str(e))   # the spec is silent here
            try: a = eng.ev(c, ctx)
            except Undef as e: return ('cundef', str(e))
            return ('cmp', differ(eng, a, b, ctx))
        for ctx, r in eng.paths(goal):
            n += 1
            if r[0] in ('vac', 'undef'): continue
            if r[0] == 'cmp' and r[1] is None: continue
            p = r[1] if r[0] == 'cmp' else ONE
            if p == ONE: g = lambda zs: z3.BoolVal(True); ps = []
            else: g = lambda zs: eng.z3poly(p, zs) != 0; ps = [p]
            st, env, exact = eng.nlcheck(ctx, g, ps, nl_timeout)
            if st == 'unsat': continue
            if st == 'sat':
                if exact: return {'status': 'refuted', 'env': env, 'cases': n, 'why': 'counter-model of the ideal-real obligation' + (' (code undefined: %s)' % r[1] if r[0] == 'cundef' else '')}
                unknown = {'status': 'unknown', 'env': env, 'why': 'candidate counter-model modulo abstracted functions'}
            elif unknown is None:
                unknown = {'status': 'unknown', 'why': 'nonlinear solver gave no answer'}
    except (Unsup, Budget) as e:
        return {'status': 'unknown', 'why': '%s: %s' % (type(e).__name__, e), 'cases': n}
    if unknown: return unknown
    return {'status': 'proved', 'how': 'case split + polynomial identity', 'cases': n}
