"""Boolean back end over ideal reals.

Decides equivalence of decision procedures (separating-axis tests, plane tests, containment): numbers are
polynomials / rational functions over the inputs and abs / min / square-root / cut atoms, kept as guarded unions
where the code selects; comparisons become sign conditions of canonical polynomials.  Every monomial is an opaque
real unknown for z3 (QF_LRA): `unsat` of (assumptions and not goal) is a proof, `sat` is only `unknown`.
"""
import time, heapq
from fractions import Fraction
import z3
from . import term as T
from . import real
from .real import Engine, Unsup, Budget, ONE, NEG, ZERO, POS, swap, pneg, psub, padd

CAP = 96
TRUEZ, FALSEZ = z3.BoolVal(True), z3.BoolVal(False)

def zand(*xs):
    r = []
    for x in xs:
        if x is FALSEZ: return FALSEZ
        if x is not TRUEZ: r.append(x)
    return TRUEZ if not r else r[0] if len(r) == 1 else z3.And(*r)
def zor(*xs):
    r = []
    for x in xs:
        if x is TRUEZ: return TRUEZ
        if x is not FALSEZ: r.append(x)
    return FALSEZ if not r else r[0] if len(r) == 1 else z3.Or(*r)
def znot(x):
    if x is TRUEZ: return FALSEZ
    if x is FALSEZ: return TRUEZ
    if z3.is_not(x): return x.children()[0]
    return z3.Not(x)
def zite(c, a, b):
    if c is TRUEZ: return a
    if c is FALSEZ: return b
    if a is b or (a is not None and a.eq(b)): return a
    if a is TRUEZ: return zor(c, b)
    if a is FALSEZ: return zand(znot(c), b)
    if b is TRUEZ: return zor(znot(c), a)
    if b is FALSEZ: return zand(c, a)
    return z3.If(c, a, b)

def pdivexact(e, p, q):
    """p / q when exact (syntactically), else None"""
    if len(p) < len(q): return None
    ats = sorted({a for m in p for a, _ in m}); ix = {a: k for k, a in enumerate(ats)}; n = len(ats)
    H = sum(0x80 << (8 * k) for k in range(n)); S = 8 * n
    def enc(m):
        v = d = 0
        for a, x in m:
            v += x << (8 * ix[a]); d += x
        return v + (d << S)
    try: Q = {enc(m): c for m, c in q.items()}
    except KeyError: return None
    R = {enc(m): c for m, c in p.items()}
    lq, tq = max(Q), min(Q); kq = Fraction(Q[lq]); low = (1 << S) - 1
    def div(a, b): return (((a & low) | H) - (b & low)) & H == H
    if not div(max(R), lq) or not div(min(R), tq): return None
    heap = [-m for m in R]; heapq.heapify(heap); out = {}
    items = list(Q.items()); seen = set(R)
    while heap:
        lm = -heapq.heappop(heap)
        c0 = R.pop(lm, 0); seen.discard(lm)
        if c0 == 0: continue
        if not div(lm, lq): return None
        m = lm - lq; k = real.fr(Fraction(c0) / kq); out[m] = k
        for mq, c in items:
            if mq == lq: continue
            mm = m + mq; R[mm] = R.get(mm, 0) - k * c
            if mm not in seen: seen.add(mm); heapq.heappush(heap, -mm)
    def dec(v): return tuple((a, (v >> (8 * k)) & 0xff) for k, a in enumerate(ats) if (v >> (8 * k)) & 0xff)
    return {dec(m): c for m, c in out.items()}

class Lin:
    def __init__(self, eng, budget=60.0):
        self.e = eng; self.t0 = time.time(); self.budget = budget
        self.vb = {}; self.vn = {}; self.mk = {}
        self.side = []          # z3 constraints defining atoms
        self.mon = {}           # monomial -> z3 Real
        self.lits = {}          # id -> z3 bool (keeps them alive)
        self.cons = {}          # (key, mask) -> z3 bool
        self.nfresh = 0; self.link = 400
        self.dens = {}          # denominators met (more than one term)
        self.cutq = {}          # (numerator key, denominator key) of a cut quotient -> atom
        self.cutk = {}          # canonical key of a cut polynomial -> atom

    def tick(self):
        if time.time() - self.t0 > self.budget: raise Budget('linear back end time budget')

    # ------------------------------------------------------------------ linear expressions
    def m(self, mm):
        v = self.mon.get(mm)
        if v is None:
            v = self.mon[mm] = z3.Real('m%d' % len(self.mon))
            if all(x % 2 == 0 or self.e.atoms[a].get('nn') for a, x in mm): self.side.append(v >= 0)
            if self.link and len(mm) > 1:
                for a, x in mm:
                    if x == 1 and self.e.atoms[a]['kind'] == 'abs' and len(self.e.atoms[a]['key']) <= 40:
                        # |q| r = q r or -q r according to the sign of q
                        q = dict(self.e.atoms[a]['key']); rest = {tuple(z for z in mm if z[0] != a): 1}
                        pr = self.e.pmul(q, rest)
                        if len(pr) > 60: continue
                        self.link -= 1
                        l = self.lin(pr)
                        self.side += [z3.Implies(self.sgn(q, POS), v == l), z3.Implies(self.sgn(q, NEG), v == -l), z3.Implies(self.sgn(q, ZERO), z3.And(v == 0, l == 0))]
        return v
    def lin(self, p):
        ts = []
        for mm, c in p.items():
            c = Fraction(c); k = z3.RealVal('%d/%d' % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(int(c))
            ts.append(k if not mm else (self.m(mm) if c == 1 else k * self.m(mm)))
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)

    def mask(self, p):
        e = self.e
        m = e.static_mask(p)
        if m not in (NEG, ZERO, POS):
            key, flip = e.pkey(p)
            x = e.facts.get(key, 7) & e.derived.get(key, 7)
            m &= swap(x) if flip else x
        return m

    def sgn(self, p, want):
        """z3 condition: sign of polynomial p is in want"""
        m = self.mask(p)
        if m & ~want == 0: return TRUEZ
        if m & want == 0: return FALSEZ
        p = real.strip_pos(self.e, p)
        key, flip = self.e.pkey(p)
        w = swap(want) if flip else want
        c = self.cons.get((key, w))
        if c is None:
            if w in (NEG, POS, ZERO):
                ex = self.lin(dict(key)); c = {NEG: ex < 0, POS: ex > 0, ZERO: ex == 0}[w]
                self.cons[(key, w)] = c; self.cons[(key, 7 & ~w)] = z3.Not(c)
                x = self.e.facts.get(key, 7) & self.e.derived.get(key, 7)
                if x != 7 and (key, 'f') not in self.cons:
                    self.cons[(key, 'f')] = True
                    self.side.append({NEG: ex < 0, POS: ex > 0, ZERO: ex == 0, NEG | ZERO: ex <= 0, POS | ZERO: ex >= 0, NEG | POS: ex != 0, 0: FALSEZ}[x])
            else:
                self.sgn_key(key, 7 & ~w); c = self.cons[(key, w)]
        return c
    def sgn_key(self, key, w):
        c = self.cons.get((key, w))
        if c is None:
            self.sgn(dict(key), w)
            if (key, w) not in self.cons:      # decided statically after all
                ex = self.lin(dict(key)); c = {NEG: ex < 0, POS: ex > 0, ZERO: ex == 0}[w]
                self.cons[(key, w)] = c; self.cons[(key, 7 & ~w)] = z3.Not(c)
        return self.cons[(key, w)]

    def rsgn(self, r, want):
        n, d = r
        if d == ONE or not n: return self.sgn(n, want)
        if len(n) > 1:
            for q in self.dens.values():
                if self.mask(q) != POS: continue
                while len(n) > 1:
                    x = pdivexact(self.e, n, q)
                    if x is None: break
                    n = x
        dm = self.mask(d)
        if dm == POS or dm == POS | ZERO: return self.sgn(n, want)
        if dm == NEG or dm == NEG | ZERO: return self.sgn(n, swap(want))
        return zite(self.sgn(d, POS), self.sgn(n, want), self.sgn(n, swap(want)))

    # ------------------------------------------------------------------ unions: list of (cube, leaf)
    def lkey(self, l): return l if l[0] == 'c' else ('r', self.e.rkey(l[1]))
    def un(self, items):
        """merge items with equal leaves whose cubes are complementary in one literal"""
        by = {}
        for cu, l in items: by.setdefault(self.lkey(l), (l, []))[1].append(cu)
        out = []
        for k, (l, cs) in by.items():
            cs = list(set(cs)); ch = len(cs) > 1
            while ch:
                ch = False; S = set(cs)
                for c in cs:
                    for (i, pol) in c:
                        o = (c - {(i, pol)}) | {(i, not pol)}
                        if o in S:
                            S.discard(c); S.discard(o); S.add(c - {(i, pol)}); ch = True; break
                    if ch: break
                if ch: cs = list(S)
            # subsumption
            cs = [c for c in cs if not any(d < c for d in cs)]
            for c in cs: out.append((c, l))
        if len(out) > CAP: return self.collapse(out)
        return out
    def collapse(self, items):
        key = tuple(sorted(((tuple(sorted(c)), self.lkey(l)) for c, l in items), key=repr))
        if any(l[0] == 'c' and not self.e.isfin(l) for _, l in items): raise Unsup('union of non-finite values')
        new = ('union', key) not in self.e.akey
        a = self.e.atom('union', key); p = self.e.apoly(a)
        if new:
            for c, l in items:
                r = self.e.num(l)
                if r[1] != ONE: continue
                self.side.append(z3.Implies(self.cube(c), self.lin(padd(p, pneg(r[0]))) == 0))
        return [(frozenset(), ('r', (p, ONE)))]
    def cube(self, c): return zand(*[self.lits[i] if pol else znot(self.lits[i]) for i, pol in c])
    def lit(self, z):
        neg = z3.is_not(z)
        if neg: z = z.children()[0]
        i = z.get_id(); self.lits[i] = z
        return i, not neg
    def join(self, a, b):
        if not a: return b
        if not b: return a
        for i, p in (a if len(a) < len(b) else b):
            if (i, not p) in (b if len(a) < len(b) else a): return None
        return a | b
    def op2(self, f, A, B):
        out = []
        for ca, la in A:
            for cb, lb in B:
                c = self.join(ca, cb)
                if c is None: continue
                for cc, l in f(la, lb):
                    c2 = self.join(c, cc)
                    if c2 is not None: out.append((c2, l))
        self.tick()
        return self.un(out)
    def op1(self, f, A):
        out = []
        for ca, la in A:
            for cc, l in f(la):
                c2 = self.join(ca, cc)
                if c2 is not None: out.append((c2, l))
        return self.un(out)
    def one(self, l): return [(frozenset(), l)]
    def R(self, r): return self.one(self.leaf(r))
    def leaf(self, r):
        """rational leaf, with registered cut polynomials replaced by their atom"""
        n, d = r
        if d != ONE and len(d) > 1 and n:
            k = self.e.pkey(d)[0]
            for q in list(self.dens.values()):
                while d != ONE:
                    x = pdivexact(self.e, d, q)
                    if x is None: break
                    y = pdivexact(self.e, n, q)
                    if y is None: break
                    n, d = y, x
                    n, d = self.e.norm((n, d))
            r = (n, d)
        if self.cutk and d == ONE and len(n) > 1:
            lm = max(n); k = n[lm]
            q = self.cutk.get(self.e.pkey(n)[0])
            if q is not None: return ('r', ({((q, 1),): k}, ONE))
        if self.cutq and d != ONE and n:
            q = self.cutq.get((self.e.pkey(n)[0], self.e.pkey(d)[0]))
            if q is not None: return ('r', ({((q, 1),): real.fr(Fraction(n[max(n)]) / d[max(d)])}, ONE))
        return ('r', r)
    def cut(self, t):
        """register the value of a term as an opaque atom"""
        v = self.num(t)
        if any(l[0] == 'r' and l[1][1] != ONE for _, l in v):   # quotient: every rational alternative becomes an atom
            for _, l in v:
                if l[0] == 'r' and l[1][1] != ONE and l[1][0]:
                    key = (self.e.pkey(l[1][0])[0], self.e.pkey(l[1][1])[0])
                    if key not in self.cutq: self.cutq[key] = self.e.atom('cut', key)
            self.vn[t.id] = [(c, self.leaf(l[1]) if l[0] == 'r' else l) for c, l in v]
            return
        if len(v) != 1 or v[0][1][0] != 'r' or v[0][1][1][1] != ONE: return
        n = v[0][1][1][0]
        if len(n) < 2: return
        key, _ = self.e.pkey(n)
        if key in self.cutk: return
        a = self.cutk[key] = self.e.atom('cut', key)
        lm = max(n); self.vn[t.id] = self.one(('r', ({((a, 1),): n[lm]}, ONE)))

    def cut_unit(self, vec):
        """cut a vector whose squared length is (provably) one, keeping that fact as a rewrite rule"""
        ps = []
        for t in vec:
            v = self.num(t)
            if len(v) != 1 or v[0][1][0] != 'r' or v[0][1][1][1] != ONE: raise Unsup('unit cut of a non-polynomial')
            ps.append(v[0][1][1][0])
        tot = {}
        for p in ps: tot = padd(tot, self.e.pmul(p, p))
        if tot != ONE: raise Unsup('unit cut of a vector that is not shown to be unit')
        ats = []
        for t, p in zip(vec, ps):
            if len(p) == 1: return          # plain inputs: nothing to gain
        for t, p in zip(vec, ps):
            self.cut(t); (mm, k), = self.vn[t.id][0][1][1][0].items(); ats.append((mm[0][0], k))
        # the last atom's square is determined by the others
        (a, k) = ats[-1]; r = {(): real.fr(1 / Fraction(k) ** 2)}
        for b, kb in ats[:-1]: r = padd(r, {((b, 2),): real.fr(-Fraction(kb) ** 2 / Fraction(k) ** 2)})
        self.e.rules[a] = r

    def bunion(self, A, f):
        """z3 bool: OR over items of cube & f(leaf)"""
        return zor(*[zand(self.cube(c), f(l)) for c, l in A])

    # ------------------------------------------------------------------ terms
    def num(self, t):
        v = self.vn.get(t.id)
        if v is None: v = self.vn[t.id] = self.num1(t)
        return v
    def boo(self, t):
        v = self.vb.get(t.id)
        if v is None: v = self.vb[t.id] = self.boo1(t)
        return v

    def cmp(self, op, la, lb):
        e = self.e
        fa, fb = e.isfin(la), e.isfin(lb)
        if op == 'funo': return TRUEZ if (not fa and T.is_nan_bits(la[1])) or (not fb and T.is_nan_bits(lb[1])) else FALSEZ
        if not fa or not fb:
            if la[0] == 'c' and lb[0] == 'c': return TRUEZ if T.fcmp(op, T.const(la[1]), T.const(lb[1])).data else FALSEZ
            bits = la[1] if not fa else lb[1]
            if T.is_nan_bits(bits) or op == 'feq': return FALSEZ
            neg = bool(bits >> 31)
            return (TRUEZ if not neg else FALSEZ) if not fb else (TRUEZ if neg else FALSEZ)
        return self.rsgn(e.rsub(e.num(la), e.num(lb)), {'feq': ZERO, 'flt': NEG, 'fle': NEG | ZERO}[op])

    def boo1(self, t):
        op = t.op
        if op == 'const': return TRUEZ if t.data else FALSEZ
        if op == 'ite':
            c = self.boo(t.args[0])
            if c is TRUEZ: return self.boo(t.args[1])
            if c is FALSEZ: return self.boo(t.args[2])
            return zite(c, self.boo(t.args[1]), self.boo(t.args[2]))
        if op == 'band':
            a = self.boo(t.args[0]); return FALSEZ if a is FALSEZ else zand(a, self.boo(t.args[1]))
        if op == 'bor':
            a = self.boo(t.args[0]); return TRUEZ if a is TRUEZ else zor(a, self.boo(t.args[1]))
        if op == 'bxor':
            a, b = self.boo(t.args[0]), self.boo(t.args[1])
            if a is TRUEZ: return znot(b)
            if b is TRUEZ: return znot(a)
            if a is FALSEZ: return b
            if b is FALSEZ: return a
            return z3.Xor(a, b)
        if op in ('feq', 'flt', 'fle', 'funo'):
            A, B = self.num(t.args[0]), self.num(t.args[1])
            return zor(*[zand(self.cube(c), self.cmp(op, la, lb)) for ca, la in A for cb, lb in B for c in [self.join(ca, cb)] if c is not None])
        if op in ('eq', 'ult', 'ule', 'slt', 'sle'):
            if t.args[0].w == 1:
                a, b = self.boo(t.args[0]), self.boo(t.args[1])
                if op == 'eq': return znot(z3.Xor(a, b)) if not (a is TRUEZ or b is TRUEZ or a is FALSEZ or b is FALSEZ) else (b if a is TRUEZ else a if b is TRUEZ else znot(b) if a is FALSEZ else znot(a))
                raise Unsup('order of booleans')
            A, B = self.num(t.args[0]), self.num(t.args[1]); w = t.args[0].w
            def f(la, lb):
                if la[0] == 'c' and lb[0] == 'c': return TRUEZ if T.icmp(op, T.const(la[1], w), T.const(lb[1], w)).data else FALSEZ
                if op == 'eq':
                    if not self.e.isfin(la) or not self.e.isfin(lb): return FALSEZ
                    return self.rsgn(self.e.rsub(self.e.num(la), self.e.num(lb)), ZERO)
                raise Unsup('integer comparison of float words')
            return zor(*[zand(self.cube(c), f(la, lb)) for ca, la in A for cb, lb in B for c in [self.join(ca, cb)] if c is not None])
        if op == 'extract':
            A = self.num(t.args[0])
            def g(l):
                if l[0] == 'c': return TRUEZ if l[1] >> t.data & 1 else FALSEZ
                if t.data == 31: return self.rsgn(l[1], NEG)
                raise Unsup('bit extract')
            return self.bunion(A, g)
        raise Unsup('bool op ' + op)

    def fresh(self):
        self.nfresh += 1
        return ('r', (self.e.apoly(self.e.atom('fresh', self.nfresh)), ONE))

    # min of a set of polynomials, as an atom
    def minleaf(self, la, lb):
        e = self.e
        if la[0] == 'c' and lb[0] == 'c' and e.isfin(la) and e.isfin(lb): return [(frozenset(), la if T.b2f(la[1]) <= T.b2f(lb[1]) else lb)]
        for x, y in ((la, lb), (lb, la)):
            if x[0] == 'c' and not e.isfin(x):
                if T.is_nan_bits(x[1]): raise Unsup('min with NaN')
                return [(frozenset(), x if x[1] >> 31 else y)]
        (n1, d1), (n2, d2) = e.num(la), e.num(lb)
        if d1 != d2 or (d1 != ONE and self.mask(d1) & NEG):
            c = self.lit(self.rsgn(e.rsub((n1, d1), (n2, d2)), NEG)) if True else None
            return [(frozenset([c]), la), (frozenset([(c[0], not c[1])]), lb)]
        dm = self.mask(psub(n1, n2)) if n1 != n2 else ZERO
        if dm & POS == 0: return [(frozenset(), la)]
        if dm & NEG == 0: return [(frozenset(), lb)]
        s = self.minset(n1) | self.minset(n2)
        return [(frozenset(), ('r', e.norm((self.minpoly(s), d1))))]
    def minset(self, p):
        if len(p) == 1:
            (mm, c), = p.items()
            if c == 1 and len(mm) == 1 and mm[0][1] == 1 and self.e.atoms[mm[0][0]]['kind'] == 'min': return self.e.atoms[mm[0][0]]['key']
        return frozenset([tuple(sorted(p.items()))])
    def minpoly(self, s):
        e = self.e
        if len(s) == 2:
            a, b = [dict(x) for x in s]
            if not padd(a, b): return pneg(self.abspoly(a))
        new = ('min', s) not in e.akey
        a = e.atom('min', s); p = e.apoly(a)
        if new:
            eqs = []
            for q in s:
                d = padd(p, pneg(dict(q))); ex = self.lin(d)
                self.side.append(ex <= 0); eqs.append(ex == 0)
            self.side.append(z3.Or(*eqs))
        return p
    def abspoly(self, p):
        e = self.e
        m = self.mask(p)
        if m & NEG == 0: return p
        if m & POS == 0: return pneg(p)
        lm = max(p); k = Fraction(p[lm]); key, flip = e.pkey(p)
        q = dict(key); k = real.fr(abs(k))
        new = ('abs', key) not in e.akey
        a = e.atom('abs', key, nn=True)
        if new:
            if len(q) <= 40: e.rules[a] = e.pmul(q, q)
            ap = e.apoly(a)
            l, r = self.lin(padd(ap, pneg(q))), self.lin(padd(ap, q))
            self.side += [l >= 0, r >= 0, z3.Or(l == 0, r == 0)]
        return {((a, 1),): k}
    def absleaf(self, l):
        if l[0] == 'c': return ('c', l[1] & 0x7fffffff)
        n, d = l[1]
        if d == ONE: return ('r', (self.abspoly(n), ONE))
        return ('r', self.e.norm((self.abspoly(n), self.abspoly(d))))

    def ismin(self, t):
        """('min'|'max', a, b) when the term is one"""
        c, a, b = t.args
        if c.op in ('flt', 'fle'):
            x, y = c.args
            if x is a and y is b: return 'min', a, b
            if x is b and y is a: return 'max', a, b
        if c.op == 'bxor' and c.args[1] is T.TRUE or c.op == 'bxor' and c.args[0] is T.TRUE:
            i = c.args[0] if c.args[1] is T.TRUE else c.args[1]
            if i.op in ('flt', 'fle'):
                x, y = i.args
                if x is a and y is b: return 'max', a, b
                if x is b and y is a: return 'min', a, b
        return None

    def maskb(self, t):
        """z3 bool when the word is all-ones or all-zeros by construction, else None"""
        v = self.mk.get(t.id, self)
        if v is self: v = self.mk[t.id] = self.maskb1(t)
        return v
    def maskb1(self, t):
        op = t.op; M = (1 << t.w) - 1
        if op == 'const': return TRUEZ if t.data == M else FALSEZ if t.data == 0 else None
        if op == 'sext' and t.args[0].w == 1: return self.boo(t.args[0])
        if op in ('band', 'bor', 'bxor'):
            a = self.maskb(t.args[0])
            if a is None: return None
            b = self.maskb(t.args[1])
            if b is None: return None
            if op == 'band': return zand(a, b)
            if op == 'bor': return zor(a, b)
            return znot(b) if a is TRUEZ else znot(a) if b is TRUEZ else b if a is FALSEZ else a if b is FALSEZ else z3.Xor(a, b)
        if op == 'ite':
            a = self.maskb(t.args[1])
            if a is None: return None
            b = self.maskb(t.args[2])
            return None if b is None else zite(self.boo(t.args[0]), a, b)
        return None

    def num1(self, t):
        op = t.op; e = self.e
        if t.w > 1 and op in ('band', 'bor', 'bxor', 'ite'):
            b = self.maskb(t)
            if b is not None:
                if b is TRUEZ: return self.one(('c', (1 << t.w) - 1))
                if b is FALSEZ: return self.one(('c', 0))
                i, p = self.lit(b)
                return [(frozenset([(i, p)]), ('c', (1 << t.w) - 1)), (frozenset([(i, not p)]), ('c', 0))]
        if op == 'const': return self.one(('c', t.data))
        if op == 'var':
            if t.data.startswith(('uninit', 'undef')): return self.R((e.apoly(e.atom('var', t.data)), ONE))
            return self.R((e.apoly(e.atom('var', t.data)), ONE))
        if op == 'ite':
            mm = self.ismin(t) if t.w == 32 else None
            if mm:
                A, B = self.num(mm[1]), self.num(mm[2])
                if len(A) * len(B) <= 16:
                    if mm[0] == 'min': return self.op2(self.minleaf, A, B)
                    ng = lambda l: ('c', l[1] ^ 0x80000000) if l[0] == 'c' else ('r', e.rneg(l[1]))
                    return self.op2(lambda x, y: [(c, ng(l)) for c, l in self.minleaf(ng(x), ng(y))], A, B)
            c = self.boo(t.args[0])
            if c is TRUEZ: return self.num(t.args[1])
            if c is FALSEZ: return self.num(t.args[2])
            A, B = self.num(t.args[1]), self.num(t.args[2])
            i, p = self.lit(c); out = []
            for cu, l in A:
                q = self.join(cu, frozenset([(i, p)]))
                if q is not None: out.append((q, l))
            for cu, l in B:
                q = self.join(cu, frozenset([(i, not p)]))
                if q is not None: out.append((q, l))
            return self.un(out)
        if op in ('fadd', 'fsub', 'fmul'):
            A, B = self.num(t.args[0]), self.num(t.args[1])
            g = {'fadd': e.radd, 'fsub': e.rsub, 'fmul': e.rmul}[op]
            sq = op == 'fmul' and t.args[0] is t.args[1]
            def f(a, b):
                if not e.isfin(a) or not e.isfin(b): return [(frozenset(), self.inf2(op, a, b))]
                x, y = e.num(a), e.num(b)
                if x[1] == ONE == y[1]:
                    r = g(x, y)
                    if sq or (op == 'fmul' and x == y): e.note_nn(r[0])
                    elif op == 'fadd' and len(r[0]) < 2000 and e.is_nn(x[0]) and e.is_nn(y[0]): e.note_nn(r[0])
                else:
                    r = g(x, y)
                    if len(r[0]) < 600 and r[1] != ONE:
                        pass
                return [(frozenset(), self.leaf(r))]
            return self.op2(f, A, B) if not sq else self.op1(lambda a: f(a, a), A)
        if op == 'fma':
            return self.num(T.fadd(T.fmul(t.args[0], t.args[1]), t.args[2]))
        if op == 'fdiv':
            A, B = self.num(t.args[0]), self.num(t.args[1])
            def f(a, b):
                if not e.isfin(a) or not e.isfin(b): return [(frozenset(), self.fresh())]
                x, y = e.num(a), e.num(b)
                if not y[0]: return [(frozenset(), self.fresh())]
                m = self.mask(y[0])
                if len(y[0]) > 1 and len(self.dens) < 24: self.dens.setdefault(e.pkey(y[0])[0], dict(e.pkey(y[0])[0]))
                if not m & ZERO: return [(frozenset(), self.leaf(e.rdiv(x, y)))]
                z = self.sgn(y[0], ZERO); i, p = self.lit(z)
                return [(frozenset([(i, not p)]), self.leaf(e.rdiv(x, y))), (frozenset([(i, p)]), self.fresh())]
            return self.op2(f, A, B)
        if op == 'fsqrt':
            def f(l):
                if not e.isfin(l): return [(frozenset(), self.fresh())]
                n, d = e.num(l)
                if not n: return [(frozenset(), ('c', 0))]
                if d == ONE and len(n) == 1 and () in n:
                    s = real.isqrt_frac(Fraction(n[()])) if n[()] > 0 else None
                    if s is not None: return [(frozenset(), ('r', e.rc(s)))]
                if d == ONE:
                    q = real.is_square(e, n)
                    if q is not None: return [(frozenset(), ('r', (self.abspoly(q), ONE)))]
                else:
                    q = real.is_square(e, d)
                    dd = self.abspoly(q) if q is not None else d
                    if q is None: n = e.pmul(n, d)
                    if q is None and self.mask(d) & NEG: raise Unsup('square root of a quotient')
                    (cu, s), = f(('r', (n, ONE)))
                    return [(cu, ('r', e.rdiv(e.num(s), (dd, ONE))))]
                key = tuple(sorted(n.items()))
                m = self.mask(n)
                kw = {'nn': True, 'rad': n} if not m & NEG else {'rad': n}
                if m == POS: kw['pos'] = True
                a = e.atom('sqrt', key, **kw)
                if len(n) > 1 and len(self.dens) < 24: self.dens.setdefault(e.pkey(n)[0], dict(e.pkey(n)[0]))
                if not m & NEG and a not in e.rules:
                    e.rules[a] = n
                    if m != POS:
                        self.side.append((self.m(((a, 1),)) == 0) == self.sgn(n, ZERO) if self.sgn(n, ZERO) is not FALSEZ else self.m(((a, 1),)) > 0)
                return [(frozenset(), ('r', (e.apoly(a), ONE)))]
            return self.op1(f, self.num(t.args[0]))
        if op == 'app':
            if t.data == 'undef': return self.one(self.fresh())
            def f(*ls):
                for l in ls:
                    if not e.isfin(l): return [(frozenset(), self.fresh())]
                if t.data in ('rcpest', 'rsqrtest'): return [(frozenset(), self.fresh())]
                c = real.Ctx(); c.used = set()
                return [(frozenset(), ('r', e.rfun(t.data, [e.num(l) for l in ls], c)))]
            if len(t.args) == 1: return self.op1(f, self.num(t.args[0]))
            if len(t.args) == 2: return self.op2(f, self.num(t.args[0]), self.num(t.args[1]))
        if op in ('band', 'bor', 'bxor') and t.w != 1:
            M = (1 << t.w) - 1
            def f(a, b):
                if a[0] == 'c' and b[0] == 'c': return [(frozenset(), ('c', {'band': a[1] & b[1], 'bor': a[1] | b[1], 'bxor': a[1] ^ b[1]}[op]))]
                if a[0] == 'c': a, b = b, a
                if b[0] == 'c':
                    k = b[1]
                    if op == 'band':
                        if k == 0: return [(frozenset(), b)]
                        if k == M: return [(frozenset(), a)]
                        if k == 0x7fffffff: return [(frozenset(), self.absleaf(a))]
                        if k == 0x80000000:
                            z = self.rsgn(a[1], NEG)
                            if z is TRUEZ: return [(frozenset(), b)]
                            if z is FALSEZ: return [(frozenset(), ('c', 0))]
                            i, p = self.lit(z)
                            return [(frozenset([(i, p)]), b), (frozenset([(i, not p)]), ('c', 0))]
                    if op == 'bor':
                        if k == 0: return [(frozenset(), a)]
                        if k == M: return [(frozenset(), b)]
                        if k == 0x80000000: return [(frozenset(), ('r', e.rneg(self.absleaf(a)[1])))]
                    if op == 'bxor':
                        if k == 0: return [(frozenset(), a)]
                        if k == 0x80000000: return [(frozenset(), ('r', e.rneg(a[1])))]
                raise Unsup('bit operation %s on reals' % op)
            return self.op2(f, self.num(t.args[0]), self.num(t.args[1]))
        if op in ('zext', 'sext') and t.args[0].w == 1:
            c = self.boo(t.args[0]); hi = ('c', 1 if op == 'zext' else (1 << t.w) - 1)
            if c is TRUEZ: return self.one(hi)
            if c is FALSEZ: return self.one(('c', 0))
            i, p = self.lit(c)
            return [(frozenset([(i, p)]), hi), (frozenset([(i, not p)]), ('c', 0))]
        # integer operations on constants
        vs = [self.zb(x) if x.w == 1 else self.num(x) for x in t.args]
        acc = [(frozenset(), ())]
        for v in vs:
            acc = [(c, l + (b[1],)) for ca, l in acc for cb, b in v for c in [self.join(ca, cb)] if c is not None and (b[0] == 'c' or self.bad(op))]
        return self.un([(c, ('c', T.rebuild(t, [T.const(v, x.w) for v, x in zip(l, t.args)]).data)) for c, l in acc])
    def bad(self, op): raise Unsup('operation %s on reals' % op)
    def zb(self, x):
        c = self.boo(x)
        if c is TRUEZ: return self.one(('c', 1))
        if c is FALSEZ: return self.one(('c', 0))
        i, p = self.lit(c)
        return [(frozenset([(i, p)]), ('c', 1)), (frozenset([(i, not p)]), ('c', 0))]
    def inf2(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c':
            return ('c', T.f2(op, T.const(a[1]), T.const(b[1])).data)
        raise Unsup('arithmetic with infinity')

    # ------------------------------------------------------------------ goals
    def same(self, A, B):
        """z3 bool: the two words agree"""
        def f(la, lb):
            if la[0] == 'c' and lb[0] == 'c':
                return TRUEZ if la[1] == lb[1] or ((la[1] | lb[1]) & 0x7fffffff) == 0 else FALSEZ
            if not self.e.isfin(la) or not self.e.isfin(lb): return FALSEZ
            return self.rsgn(self.e.rsub(self.e.num(la), self.e.num(lb)), ZERO)
        return zor(*[zand(self.cube(c), f(la, lb)) for ca, la in A for cb, lb in B for c in [self.join(ca, cb)] if c is not None])

    def solve(self, assume, goal, tmo):
        """-> 'unsat' when assume implies goal"""
        if goal is TRUEZ: return 'unsat'
        for key, x in list(self.e.facts.items()):
            if x != 7 and (key, 'f') not in self.cons and len(key) <= 200:
                self.cons[(key, 'f')] = True; ex = self.lin(dict(key))
                self.side.append({NEG: ex < 0, POS: ex > 0, ZERO: ex == 0, NEG | ZERO: ex <= 0, POS | ZERO: ex >= 0, NEG | POS: ex != 0, 0: FALSEZ}[x])
        s = z3.SolverFor('QF_LRA'); s.set('timeout', int(tmo * 1000))
        for x in self.side: s.add(x)
        for x in assume: s.add(x)
        s.add(znot(goal))
        t0 = time.time(); r = s.check(); self.z3time = getattr(self, 'z3time', 0) + time.time() - t0
        if r == z3.sat: self.model = s.model()
        return str(r)

def prove(code, spec, eng, reqs, tmo, cuts=(), lemmas=(), units=()):
    """code word equals spec word under reqs"""
    L = Lin(eng, tmo)
    try:
        for v in units: L.cut_unit(v)
        for t in cuts: L.cut(t)
        asm = [L.boo(t) for t in reqs]
        for t in lemmas: L.side.append(L.boo(t))
        if code.w == 1: g = z3.BoolVal(True); a, b = L.boo(code), L.boo(spec); g = TRUEZ if a.eq(b) else a == b
        else: g = L.same(L.num(code), L.num(spec))
        r = L.solve(asm, g, tmo)
    except (Unsup, Budget) as x:
        return {'status': 'unknown', 'why': '%s: %s' % (type(x).__name__, x)}
    except real.Undef as x:
        return {'status': 'unknown', 'why': 'undefined: %s' % x}
    if r == 'unsat': return {'status': 'proved', 'how': 'ideal-real decision equivalence: canonical polynomials + z3 QF_LRA'}
    return {'status': 'unknown', 'why': 'not implied linearly (%s)' % r}
