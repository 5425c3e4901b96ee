"""Accuracy obligations: for every binary32 input x of a domain, |code(x) - f(x)| <= tol(x),
with the code evaluated in binary32 (round to nearest).

The domain is covered by boxes of consecutive floats.  On a box, every node of the code term gets an
enclosure of its ideal value, of the ideal value at the midpoint, of its derivative in x, and a bound on the
accumulated binary32 rounding error.  Branches, roundings to integer and sign tests that the
enclosure (widened by the rounding error) does not decide are explored both ways.  A box whose bound is not
below tol is split; a single float is the smallest box.  No sampling: a discharged obligation covers every
float of the domain.  (Enclosures are computed in binary64 and widened by 1e-13 relative.)"""
import numpy as np, time
from . import term as T, evalnp

U = 2.0 ** -24 * (1 + 1e-6); TINY = 2.0 ** -149; FMAX = 3.4028234e38
S = 1e-13
LIBERR = 2 * U * 2      # assumed accuracy of the platform's libm in relative terms (2 ulp)

class V:
    __slots__ = ('lo', 'hi', 'm', 'a', 'b', 'e')     # value enclosure, midpoint value, derivative enclosure, rounding error
    def __init__(s, lo, hi, m, a, b, e): s.lo = lo; s.hi = hi; s.m = m; s.a = a; s.b = b; s.e = e
class C:
    __slots__ = ('v', 'w')                            # concrete bits
    def __init__(s, v, w): s.v = v; s.w = w
class B:
    __slots__ = ('v', 'a')                            # boolean, ambiguous mask
    def __init__(s, v, a): s.v = v; s.a = a
class Unk:
    pass
UNK = Unk()

KEYS = {}; KEYR = []
class Box:
    """one batch"""
    def __init__(self, lo, hi, dec):
        self.lo, self.hi, self.dec = lo, hi, dec; self.n = len(lo)
        self.h = (hi - lo) / 2; self.pt = lo == hi
        self.fork = np.full(self.n, -1, np.int64)     # first undecided node
        self.fail = np.zeros(self.n, bool); self.empty = np.zeros(self.n, bool); self.f0 = np.zeros(self.n); self.f1 = np.zeros(self.n)

    def choose(self, nid, c0, c1, ok=True):
        """the choice made at a node: c0 or c1 (equal: decided).  Earlier forks force it; a forced choice outside [c0, c1] is an
        empty case; an unforced ambiguity asks for a fork."""
        d = self.dec.get(nid)
        v = c0; amb = (c0 != c1) & ok
        if d is not None:
            f = ~np.isnan(d)
            self.empty |= f & ok & ~((d >= c0) & (d <= c1))
            v = np.where(f, d, v); amb = amb & ~f
        new = amb & (self.fork < 0)
        if new.any():
            self.fork[new] = self.key(nid); self.f0 = np.where(new, c0, self.f0); self.f1 = np.where(new, c1, self.f1)
        return v
    def key(self, nid):
        k = KEYS.get(nid)
        if k is None: k = KEYS[nid] = len(KEYS); KEYR.append(nid)
        return k

    def decide(self, nid, v, amb):
        c0 = np.where(amb, 0.0, v); c1 = np.where(amb, 1.0, v)
        return self.choose(nid, c0, c1) == 1.0

    def num(self, x):
        if isinstance(x, V): return x
        if isinstance(x, C):
            f = x.v.astype(np.uint32).view(np.float32).astype(np.float64)
            bad = np.isnan(f); f = np.where(bad, 0.0, f)     # an infinity is a value of its own: exact operations (conc2) or unknown (tight)
            v = V(f, f, f, np.zeros(self.n), np.zeros(self.n), np.where(bad, np.inf, 0.0)); return v
        raise NotImplementedError('number view of %r' % type(x))

    def tight(self, r):
        """mean-value improvement of the enclosure"""
        d = np.maximum(np.abs(r.a), np.abs(r.b)) * self.h
        d = np.where(self.pt, 0.0, d) ; s = S * np.abs(r.m) + 1e-300
        lo = np.fmax(r.lo - S * np.abs(r.lo), r.m - d * (1 + S) - s); hi = np.fmin(r.hi + S * np.abs(r.hi), r.m + d * (1 + S) + s)
        r.lo, r.hi = np.minimum(lo, r.m), np.maximum(hi, r.m)
        z = self.pt
        r.a = np.where(z, 0.0, r.a); r.b = np.where(z, 0.0, r.b)
        bad = ~(np.isfinite(r.lo) & np.isfinite(r.hi) & np.isfinite(r.m))
        if bad.any():
            w = lambda q, k: np.where(bad, k, q)
            r = V(w(r.lo, 0.0), w(r.hi, 0.0), w(r.m, 0.0), w(r.a, 0.0), w(r.b, 0.0), w(r.e, np.inf))
        return r

def imul(al, ah, bl, bh):
    p = al * bl, al * bh, ah * bl, ah * bh
    p = [np.where(np.isnan(q), 0.0, q) for q in p]
    return np.minimum(np.minimum(p[0], p[1]), np.minimum(p[2], p[3])), np.maximum(np.maximum(p[0], p[1]), np.maximum(p[2], p[3]))

def mag(x): return np.maximum(np.abs(x.lo), np.abs(x.hi))

def vadd(bx, x, y, s=1):
    yl, yh, ya, yb, ym = (y.lo, y.hi, y.a, y.b, y.m) if s > 0 else (-y.hi, -y.lo, -y.b, -y.a, -y.m)
    r = V(x.lo + yl, x.hi + yh, x.m + ym, x.a + ya, x.b + yb, x.e + y.e)
    return bx.tight(r)
def rnd(r, und=False):
    r.e = e1 = r.e + U * (mag(r) + r.e) + (TINY if und else 0.0)
    big = ~(mag(r) + r.e <= FMAX)
    if big.any():       # may overflow; certainly overflows
        r.e = np.where(big, np.inf, r.e)
        for k, c in ((np.inf, r.lo - e1 > 3.41e38), (-np.inf, r.hi + e1 < -3.41e38)):
            if c.any(): r = sel(c, konst(len(r.lo), k), r)
    return r
def exact_sum(x, y):
    """one operand exactly zero"""
    return ((x.lo == 0) & (x.hi == 0) & (x.e == 0)) | ((y.lo == 0) & (y.hi == 0) & (y.e == 0))
def vmul(bx, x, y):
    lo, hi = imul(x.lo, x.hi, y.lo, y.hi)
    a1, b1 = imul(x.a, x.b, y.lo, y.hi); a2, b2 = imul(x.lo, x.hi, y.a, y.b)
    if x is y:
        lo = np.where((x.lo <= 0) & (x.hi >= 0), 0.0, np.minimum(x.lo ** 2, x.hi ** 2))
    r = V(lo, hi, x.m * y.m, a1 + a2, b1 + b2, mag(x) * y.e + mag(y) * x.e + x.e * y.e)
    return bx.tight(r)
def vinv(bx, y):
    bad = (y.lo - y.e <= 0) & (y.hi + y.e >= 0)
    l = np.where(bad, 1.0, y.lo); h = np.where(bad, 1.0, y.hi); m = np.where(bad, 1.0, y.m); e = np.where(bad, 0.0, y.e)
    lo, hi = 1 / h, 1 / l
    s1, s2 = -1 / (l * l), -1 / (h * h)
    a, b = imul(np.minimum(s1, s2), np.maximum(s1, s2), y.a, y.b)
    mn = np.minimum(np.abs(l), np.abs(h))
    return bx.tight(V(lo, hi, 1 / m, a, b, np.where(bad, np.inf, e / (mn * np.maximum(mn - e, 1e-300)))))
def vneg(x): return V(-x.hi, -x.lo, -x.m, -x.b, -x.a, x.e)
def sel(c, x, y):
    w = lambda p, q: np.where(c, p, q)
    return V(w(x.lo, y.lo), w(x.hi, y.hi), w(x.m, y.m), w(x.a, y.a), w(x.b, y.b), w(x.e, y.e))
def hull(x, y):
    return V(np.minimum(x.lo, y.lo), np.maximum(x.hi, y.hi), x.m, np.minimum(x.a, y.a), np.maximum(x.b, y.b), np.maximum(x.e, y.e))
def konst(n, k):
    z = np.zeros(n); c = z + k; return V(c, c, c, z, z, z)

class Eval:
    def __init__(self, roots): self.order = list(T.subterms(roots)); self.roots = roots
    def run(self, bx, var):
        val = {}
        old = np.seterr(all='ignore')
        try:
            for t in self.order:
                val[t.id] = self.ev1(bx, t, [val[a.id] for a in t.args], var)
            return [val[r.id] for r in self.roots]
        finally: np.seterr(**old)

    def bl(self, bx, x):
        if isinstance(x, B): return x
        if isinstance(x, C): return B(x.v != 0, np.zeros(bx.n, bool))
        if x is UNK: return B(np.zeros(bx.n, bool), np.ones(bx.n, bool))
        raise NotImplementedError('bool view')
    def conc(self, bx, t, x):
        """concrete bits, or None"""
        if isinstance(x, C): return x.v
        if isinstance(x, B):
            v = bx.decide(t.id, x.v, x.a); return v.astype(np.uint32)
        if isinstance(x, V):
            ok = (x.lo == x.hi) & (x.e == 0)
            if ok.all(): return (x.m.astype(np.float32)).view(np.uint32)
        return None
    def sign(self, bx, nid, x):
        """bool array: sign bit, forking where undecided"""
        amb = (x.lo - x.e <= 0) & (x.hi + x.e >= 0)
        return bx.decide(nid, x.hi < 0, amb)
    def vabs(self, bx, nid, x):
        s = self.sign(bx, nid, x)
        return sel(s, vneg(x), x)

    def conc2(self, r, xs, f):
        """operands that are single exactly known floats: the operation is carried out in binary32"""
        ok = np.ones(len(r.lo), bool)
        for x in xs: ok &= (x.lo == x.hi) & (x.e == 0)
        if not ok.any(): return r
        v = f(*[x.m.astype(np.float32) for x in xs]).astype(np.float64); fin = ~np.isnan(v); v = np.where(fin, v, 0.0); z = np.zeros(len(v))
        return sel(ok, V(v, v, v, z, z, np.where(fin, 0.0, np.inf)), r)

    def integer(self, bx, t, x, f, where):
        k0, k1 = f(x.lo - x.e), f(x.hi + x.e)
        if f is np.rint:      # a tie can go either way unless the value is exactly known
            pt = (x.lo == x.hi) & (x.e == 0)
            k0 = np.where(pt, k0, np.minimum(k0, np.ceil(x.lo - x.e - 0.5))); k1 = np.where(pt, k1, np.maximum(k1, np.floor(x.hi + x.e + 0.5)))
        bad = (k1 - k0 > 1) | ~np.isfinite(k1 - k0) | (np.abs(k1) > 2 ** 30) | (np.abs(k0) > 2 ** 30)
        bx.fail |= bad & where
        ok = where & ~bad
        k = bx.choose(t.id, np.where(ok, k0, np.nan), np.where(ok, k1, np.nan), ok)
        k = np.where(ok, k, 0.0)
        z = np.zeros(bx.n)
        return V(k, k, k, z, z, z)

    def ev1(self, bx, t, a, var):
        op, n = t.op, bx.n
        if op == 'const': return C(np.full(n, t.data, dtype=evalnp.dt(t.w)), t.w)
        if op == 'var':
            if t.data != var: raise NotImplementedError('second input')
            o = np.ones(n); return V(bx.lo, bx.hi, (bx.lo + bx.hi) / 2, o, o, np.zeros(n))
        if t.w == 1:
            if op in ('band', 'bor', 'bxor'):
                x, y = self.bl(bx, a[0]), self.bl(bx, a[1])
                if op == 'band': return B(x.v & y.v, (x.a & (y.v | y.a)) | (y.a & (x.v | x.a)))
                if op == 'bor': return B(x.v | y.v, (x.a & (~y.v | y.a)) | (y.a & (~x.v | x.a)))
                return B(x.v ^ y.v, x.a | y.a)
            if op in ('feq', 'flt', 'fle'):
                x, y = bx.num(a[0]), bx.num(a[1]); e = x.e + y.e
                dl, dh = x.lo - y.hi - e, x.hi - y.lo + e
                if op == 'flt': return B(dh < 0, ~((dh < 0) | (dl >= 0)))
                if op == 'fle': return B(dh <= 0, ~((dh <= 0) | (dl > 0)))
                return B((dl == 0) & (dh == 0), ~(((dl == 0) & (dh == 0)) | (dl > 0) | (dh < 0)))
            if op == 'funo':
                for q in a: bx.num(q)
                return B(np.zeros(n, bool), np.zeros(n, bool))
            if op == 'ite':
                c, x, y = [self.bl(bx, q) for q in a]
                return B(np.where(c.v, x.v, y.v), np.where(c.v, x.a, y.a) | (c.a & ((x.v != y.v) | x.a | y.a)))
            if op in ('eq', 'slt', 'sle', 'ult', 'ule'):
                if any(isinstance(q, V) for q in a) and op in ('slt', 'sle'):
                    r = []
                    for q in a:
                        if isinstance(q, V):
                            u = t.args[len(r)]
                            neg = self.sign(bx, -u.id - 2, q)
                            up = lambda z: np.nextafter(np.maximum(z, 0).astype(np.float32), np.float32(np.inf)).view(np.uint32).astype(np.int64)
                            dn = lambda z: np.nextafter(np.maximum(z, 0).astype(np.float32), np.float32(0)).view(np.uint32).astype(np.int64)
                            pt = (q.e == 0) & (q.lo == q.lo.astype(np.float32)) & (q.hi == q.hi.astype(np.float32))
                            ex = lambda z: np.maximum(z, 0).astype(np.float32).view(np.uint32).astype(np.int64)
                            pl = np.where(pt, ex(q.lo), dn(q.lo - q.e)); ph = np.where(pt, ex(q.hi), up(q.hi + q.e))
                            nl = np.where(pt, ex(-q.hi), dn(-q.hi - q.e)); nh = np.where(pt, ex(-q.lo), up(-q.lo + q.e))
                            r.append((np.where(neg, nl - 2 ** 31, pl), np.where(neg, nh - 2 ** 31, ph)))
                        else:
                            v = q.v.astype(np.uint32).view(np.int32).astype(np.int64); r.append((v, v))
                    (xl, xh), (yl, yh) = r
                    return B(xh < yl, ~((xh < yl) | (xl >= yh))) if op == 'slt' else B(xh <= yl, ~((xh <= yl) | (xl > yh)))
                for u, q in ((0, 1), (1, 0)):
                    if isinstance(a[u], Fin) and isinstance(a[q], C) and op == 'eq' and (a[q].v == 0x7f800000).all(): return B(np.zeros(n, bool), np.zeros(n, bool))
                cs = [None if q is UNK or isinstance(q, Fin) else self.conc(bx, p, q) for p, q in zip(t.args, a)]
                if any(q is None for q in cs): return B(np.zeros(n, bool), np.ones(n, bool))
                return B(evalnp._ev(t, cs, {}, n) != 0, np.zeros(n, bool))
            if op == 'extract' and isinstance(a[0], V) and t.data == 31:
                x = a[0]; amb = (x.lo - x.e <= 0) & (x.hi + x.e >= 0); return B(x.hi < 0, amb)
        if op == 'ite':
            c = self.bl(bx, a[0])
            if c.a.any() and isinstance(a[1], C) and isinstance(a[2], C) and (a[1].v == a[2].v)[c.a].all(): return C(np.where(c.v, a[1].v, a[2].v), t.w)
            cv = bx.decide(t.args[0].id, c.v, c.a)
            if isinstance(a[1], C) and isinstance(a[2], C): return C(np.where(cv, a[1].v, a[2].v), t.w)
            if UNK in (a[1], a[2]): return UNK
            if isinstance(a[1], B) or isinstance(a[2], B): raise NotImplementedError('mixed ite')
            # an infinity or NaN constant on a side that is not taken must not spoil the other
            return sel(cv, bx.num(a[1]), bx.num(a[2]))
        fl = [isinstance(q, V) for q in a]
        if op in ('fadd', 'fsub'):
            x, y = bx.num(a[0]), bx.num(a[1])
            r = vadd(bx, x, y, 1 if op == 'fadd' else -1); ex = exact_sum(x, y); e0 = r.e
            
            # integers beyond 2^23 have unit spacing: such a sum is rounded to an integer (the classical rounding trick)
            mn = np.where(r.lo * r.hi > 0, np.minimum(np.abs(r.lo), np.abs(r.hi)), 0.0)
            sh = (mn > 2.0 ** 23 - 0.2) & (mag(r) < 2.0 ** 24) & (r.hi - r.lo + 2 * r.e < 0.9)
            r2 = rnd(V(r.lo, r.hi, r.m, r.a, r.b, r.e)); r2.e = np.where(ex, e0, r2.e)
            if sh.any(): r2 = sel(sh, self.integer(bx, t, r, np.rint, sh), r2)
            return self.conc2(r2, [x, y], np.add if op == 'fadd' else np.subtract)
        if op == 'fmul':
            x, y = bx.num(a[0]), bx.num(a[1]); r = vmul(bx, x, y); e0 = r.e
            one = [(q.lo == q.hi) & (np.abs(q.lo) == 1) & (q.e == 0) for q in (x, y)]
            r = rnd(r, True); r.e = np.where(one[0] | one[1], e0, r.e); return self.conc2(r, [x, y], np.multiply)
        if op == 'fma':
            x, y, z = [bx.num(q) for q in a]
            r = rnd(vadd(bx, vmul(bx, x, y), z), True)
            ok = np.ones(len(r.lo), bool)
            for q in (x, y, z): ok &= (q.lo == q.hi) & (q.e == 0)
            ok &= np.isinf(x.m) | np.isinf(y.m) | np.isinf(z.m)
            if ok.any():
                v = x.m * y.m + z.m; k = np.isnan(v); v = np.where(k, 0.0, v); o = np.zeros(len(v)); r = sel(ok, V(v, v, v, o, o, np.where(k, np.inf, 0.0)), r)
            return r
        if op == 'fdiv':
            x, y = bx.num(a[0]), bx.num(a[1]); i = vinv(bx, y); q = vmul(bx, x, i)
            # error of the quotient: (ex + |q| ey)/(|y|-ey)
            mn = np.minimum(np.abs(y.lo), np.abs(y.hi)); q.e = np.where(np.isfinite(i.e) & np.isfinite(q.e), (x.e + mag(q) * y.e) / np.maximum(mn - y.e, 1e-300), np.inf)
            return self.conc2(rnd(q, True), [x, y], np.divide)
        if op == 'fsqrt':
            x = bx.num(a[0])
            bad = x.lo - x.e < 0
            l, h, m = np.maximum(x.lo, 0), np.maximum(x.hi, 0), np.maximum(x.m, 0)
            sl, sh = np.sqrt(l), np.sqrt(h)
            a1, b1 = imul(.5 / np.maximum(sh, 1e-300), .5 / np.maximum(sl, 1e-300), x.a, x.b)
            dl = np.maximum(l - x.e, 0)
            e = np.where(x.e == 0, 0.0, np.where(dl > 0, x.e / (np.sqrt(np.maximum(dl, 1e-300)) + sl), np.sqrt(x.e)))
            r = bx.tight(V(sl, sh, np.sqrt(m), a1, b1, np.where(bad, np.inf, e))); return self.conc2(rnd(r), [x], np.sqrt)
        if op in ('frne', 'ffloor', 'fceil', 'ftrunc', 'fptosi'):
            x = bx.num(a[0])
            f = {'frne': np.rint, 'ffloor': np.floor, 'fceil': np.ceil, 'ftrunc': np.trunc, 'fptosi': np.trunc}[op]
            # out of range the conversion has no value: the guard around it selects another
            v = self.integer(bx, t, x, f, ~((x.lo - x.e >= 2.0 ** 31) | (x.hi + x.e < -2.0 ** 31)) if op == 'fptosi' else np.ones(n, bool))
            if op != 'fptosi': return v
            k = v.m
            if op == 'fptosi': return C(np.nan_to_num(np.where(np.abs(k) > 2 ** 30, 0, k)).astype(np.int64).astype(np.uint32), 32)
        if op == 'sitofp' and isinstance(a[0], C):
            v = evalnp._sgn(a[0].v, t.args[0].w).astype(np.float64); f = v.astype(np.float32).astype(np.float64); return konst(n, 0.0 + f)
        if op in ('band', 'bor', 'bxor') and any(fl) and t.w == 32:
            i = 0 if fl[0] else 1; x = a[i]; k = a[1 - i]
            if op in ('bor', 'bxor') and (isinstance(k, V) or isinstance(k, C) and not (set(np.unique(k.v).tolist()) <= {0, 0x80000000})):
                # (c ? 0 : p) | (c ? q : 0)
                def z0(q, u): return (q.lo == 0) & (q.hi == 0) & (q.e == 0) if u.op == 'band' or u.op == 'ite' and any(w.op == 'const' and w.data == 0 for w in u.args[1:]) else np.zeros(n, bool)
                z1, z2 = [q.v == 0 if isinstance(q, C) else z0(q, u) for q, u in zip(a, t.args)]
                if (z1 | z2).any():
                    q = sel(z1, bx.num(a[1]), bx.num(a[0])); q.e = np.where(z1 | z2, q.e, np.inf); return q
            if isinstance(k, V):
                kc = self.conc(bx, t.args[1 - i], k)
                if kc is None:
                    xc = self.conc(bx, t.args[i], x)
                    if xc is None: return UNK
                    x, k, kc = k, x, xc
                k = C(kc, 32)
            if not isinstance(k, C): return UNK
            kv = k.v; ks = set(np.unique(kv).tolist())
            xid = (t.args[i].id, 's')[0] * 8 + 1          # decision key of the sign of x (shared by every mask on it)
            xid = -t.args[i].id - 2
            if op == 'bxor' and ks <= {0, 0x80000000}: return sel(kv != 0, vneg(x), x)
            if op == 'bor' and ks <= {0, 0x80000000}:
                if ks == {0}: return x
                ab = self.vabs(bx, xid, x); return sel(kv != 0, vneg(ab), x)
            if op == 'band':
                if ks <= {0, 0x7fffffff, 0xffffffff}:
                    r = sel(kv == 0, konst(n, 0.0), x)
                    if 0x7fffffff in ks: r = sel(kv == 0x7fffffff, self.vabs(bx, xid, x), r)
                    return r
                if ks <= {0, 0x80000000}:
                    s = self.sign(bx, xid, x); return C(np.where(s & (kv != 0), np.uint32(0x80000000), np.uint32(0)), 32)
                if ks == {0x7f800000}:
                    eb = [np.frexp(q)[1] for q in (np.abs(x.lo), np.abs(x.hi))]
                    c = self.conc(bx, t.args[i], x)
                    if c is not None: return C(c & np.uint32(0x7f800000), 32)
                    ok = (x.e == 0) & (x.lo * x.hi > 0) & (np.minimum(eb[0], eb[1]) > -125)
                    lo = np.minimum(np.abs(x.lo), np.abs(x.hi)).astype(np.float32).view(np.uint32) & np.uint32(0x7f800000)
                    hi = np.maximum(np.abs(x.lo), np.abs(x.hi)).astype(np.float32).view(np.uint32) & np.uint32(0x7f800000)
                    # only ever compared with the all-ones exponent (non-finite test): report any finite exponent
                    if (hi < 0x7f800000).all(): return C(np.minimum(lo, hi), 32) if (lo == hi).all() else Fin()
                    return UNK
            return UNK
        if op == 'app':
            nm = t.data
            if nm == 'rcpest':
                y = bx.num(a[0]); r = vinv(bx, y); r.e = r.e + 1.5 * 2.0 ** -12 * (mag(r) + r.e); return r
            if nm in FN and len(a) == 1:
                x = bx.num(a[0]); lo, hi = x.lo, x.hi
                q = FN[nm](lo, hi, x.m)
                if q is None: raise NotImplementedError(nm)
                L, H, M, dL, dH = q
                aa, bb = imul(dL, dH, x.a, x.b)
                r = bx.tight(V(L, H, M, aa, bb, np.where(x.e == 0, 0.0, np.maximum(np.abs(dL), np.abs(dH)) * 1.01 * x.e))); r.e = r.e + LIBERR * (mag(r) + r.e) + TINY
                return r
            if nm == 'pow':
                x, y = bx.num(a[0]), bx.num(a[1])
                if (x.lo == 2).all() and (x.hi == 2).all():
                    L, H, M, dL, dH = FN['exp2'](y.lo, y.hi, y.m); aa, bb = imul(dL, dH, y.a, y.b)
                    r = bx.tight(V(L, H, M, aa, bb, dH * 1.01 * y.e)); r.e = r.e + LIBERR * mag(r) + TINY; return r
            raise NotImplementedError('app ' + nm)
        if any(q is UNK or isinstance(q, Fin) for q in a): return UNK
        cs = [self.conc(bx, p, q) for p, q in zip(t.args, a)]
        if any(c is None for c in cs):
            if t.w == 32 and op in ('extract', 'concat', 'zext'): pass
            return UNK
        return C(evalnp._ev(t, cs, {}, n), t.w)

class Fin:
    """some finite exponent field: differs from 0x7f800000, otherwise unknown"""

# ---- reference functions: (lo, hi, mid) -> value enclosure, midpoint value, derivative enclosure
def f_sin(lo, hi, m):
    h = (hi - lo) / 2; c = np.cos(m); return np.maximum(np.sin(m) - h, -1), np.minimum(np.sin(m) + h, 1), np.sin(m), np.maximum(c - h, -1), np.minimum(c + h, 1)
def f_cos(lo, hi, m):
    h = (hi - lo) / 2; s = -np.sin(m); return np.maximum(np.cos(m) - h, -1), np.minimum(np.cos(m) + h, 1), np.cos(m), np.maximum(s - h, -1), np.minimum(s + h, 1)
def f_tan(lo, hi, m):
    k = np.floor((lo + np.pi / 2) / np.pi) != np.floor((hi + np.pi / 2) / np.pi)
    a, b = np.tan(lo), np.tan(hi); mx = np.maximum(np.abs(a), np.abs(b)); mn = np.where(a * b <= 0, 0, np.minimum(np.abs(a), np.abs(b)))
    inf = np.inf
    return np.where(k, -inf, a), np.where(k, inf, b), np.tan(m), 1 + mn * mn, np.where(k, inf, 1 + mx * mx)
def f_asin(lo, hi, m):
    l, h = np.clip(lo, -1, 1), np.clip(hi, -1, 1); mx = np.maximum(np.abs(l), np.abs(h)); mn = np.where(l * h <= 0, 0, np.minimum(np.abs(l), np.abs(h)))
    d = lambda q: 1 / np.sqrt(np.maximum((1 - q) * (1 + q), 0))
    return np.arcsin(l), np.arcsin(h), np.arcsin(np.clip(m, -1, 1)), d(mn), d(mx)
def f_acos(lo, hi, m):
    L, H, M, a, b = f_asin(lo, hi, m); return np.pi / 2 - H, np.pi / 2 - L, np.arccos(np.clip(m, -1, 1)), -b, -a
def f_atan(lo, hi, m):
    mx = np.maximum(np.abs(lo), np.abs(hi)); mn = np.where(lo * hi <= 0, 0, np.minimum(np.abs(lo), np.abs(hi)))
    return np.arctan(lo), np.arctan(hi), np.arctan(m), 1 / (1 + mx * mx), 1 / (1 + mn * mn)
def f_exp2(lo, hi, m):
    k = np.log(2); return np.exp2(lo), np.exp2(hi), np.exp2(m), k * np.exp2(lo), k * np.exp2(hi)
def f_sinh(lo, hi, m):
    mx = np.maximum(np.abs(lo), np.abs(hi)); mn = np.where(lo * hi <= 0, 0, np.minimum(np.abs(lo), np.abs(hi)))
    return np.sinh(lo), np.sinh(hi), np.sinh(m), np.cosh(mn), np.cosh(mx)
def f_cosh(lo, hi, m):
    mx = np.maximum(np.abs(lo), np.abs(hi)); mn = np.where(lo * hi <= 0, 0, np.minimum(np.abs(lo), np.abs(hi)))
    return np.cosh(mn), np.cosh(mx), np.cosh(m), np.sinh(lo), np.sinh(hi)
def f_tanh(lo, hi, m):
    mx = np.maximum(np.abs(lo), np.abs(hi)); mn = np.where(lo * hi <= 0, 0, np.minimum(np.abs(lo), np.abs(hi)))
    return np.tanh(lo), np.tanh(hi), np.tanh(m), 1 / np.cosh(np.minimum(mx, 300)) ** 2, 1 / np.cosh(np.minimum(mn, 300)) ** 2
FN = {'sin': f_sin, 'cos': f_cos, 'tan': f_tan, 'asin': f_asin, 'acos': f_acos, 'atan': f_atan, 'exp2': f_exp2, 'sinh': f_sinh, 'cosh': f_cosh, 'tanh': f_tanh}

# ---- floats as ordered integers
def idx(f):
    b = np.asarray(f, np.float32).view(np.int32).astype(np.int64); return np.where(b < 0, -(b & 0x7fffffff), b)
def val(i):
    i = np.asarray(i, np.int64); b = np.where(i < 0, (-i) | 0x80000000, i).astype(np.uint32); return b.view(np.float32).astype(np.float64)

def prove(code, var, f, lo, hi, tol, budget=60.0, maxbox=4_000_000):
    """-> dict(status, how, boxes, env?)"""
    t0 = time.time()
    ev = Eval([code]); lo = float(np.float32(lo)); hi = float(np.float32(hi))
    # breakpoints: the binades of the domain, zero, and the constants of the code
    pts = {lo, hi, 0.0}
    for k in range(-149, 128, 1):
        if k < -24 and k % 16: continue
        pts |= {2.0 ** k, -2.0 ** k}
    for t in ev.order:
        if t.op == 'const' and t.w == 32:
            v = float(np.uint32(t.data).view(np.float32))
            if np.isfinite(v): pts |= {v, -v}
    ii = np.unique(idx(np.array([p for p in pts if lo <= p <= hi], np.float32)))
    # boxes [i, j] of consecutive floats; breakpoints are boxes of their own
    bl = [ii]; bh = [ii]
    a, b = ii[:-1] + 1, ii[1:] - 1; ok = a <= b
    bl.append(a[ok]); bh.append(b[ok])
    L = np.concatenate(bl); H = np.concatenate(bh)
    # start a little finer
    for _ in range(3):
        w = H > L; M = (L + H) >> 1
        L, H = np.concatenate([L[~w], L[w], M[w] + 1]), np.concatenate([H[~w], M[w], H[w]])
        q = L <= H; L, H = L[q], H[q]
    queue = [(L, H, {})]; boxes = 0
    while queue:
        # take up to 65536 boxes, merging small batches
        part = []; cnt = 0
        while queue and cnt < 65536:
            L, H, dec = queue.pop(); room = 65536 - cnt
            if len(L) > room:
                queue.append((L[room:], H[room:], {k: d[room:] for k, d in dec.items()}))
                L, H, dec = L[:room], H[:room], {k: d[:room] for k, d in dec.items()}
            part.append((L, H, dec)); cnt += len(L)
        keys = {k for _, _, d in part for k in d}
        L = np.concatenate([p[0] for p in part]); H = np.concatenate([p[1] for p in part])
        dec = {k: np.concatenate([p[2].get(k, np.full(len(p[0]), np.nan)) for p in part]) for k in keys}
        if time.time() - t0 > budget or boxes > maxbox:
            return {'status': 'unknown', 'why': 'accuracy: budget exhausted after %d boxes' % boxes, 'env': {var: int(np.float32(val(L[:1])[0]).view(np.uint32))}}
        boxes += len(L)
        lo_, hi_ = val(L), val(H)
        bx = Box(lo_, hi_, dec)
        r, = ev.run(bx, var)
        r = bx.num(r)
        with np.errstate(all='ignore'):
            m = (lo_ + hi_) / 2
            fl, fh, fm, fa, fb = f(lo_, hi_, m)
            g1 = np.abs(r.m - fm) + np.where(bx.pt, 0.0, np.maximum(np.abs(r.a - fb), np.abs(r.b - fa)) * bx.h)
            g2 = np.maximum(np.abs(r.hi - fl), np.abs(fh - r.lo))
            g = np.fmin(g1, g2) + r.e + 1e-13 * (np.abs(fm) + np.abs(r.m)) + 1e-300
            tl = tol(lo_, hi_, fl, fh)
            good = ((g <= tl) & ~bx.fail & (bx.fork < 0)) | (tl == np.inf) | bx.empty
        fk = (bx.fork >= 0) & ~good & ~bx.fail
        bad = ~good & ~fk
        ptbad = bad & bx.pt
        if ptbad.any():
            k = int(np.argmax(ptbad))
            return {'status': 'unknown', 'why': 'accuracy: bound %.3g exceeds tolerance %.3g at x = %r' % (g[k], tl[k], lo_[k]), 'env': {var: int(np.float32(lo_[k]).view(np.uint32))}, 'boxes': boxes}
        if bad.any():
            l, h = L[bad], H[bad]; mm = (l + h) >> 1
            queue.append((np.concatenate([l, mm + 1]), np.concatenate([mm, h]), {k: np.concatenate([d[bad], d[bad]]) for k, d in dec.items()}))
        if fk.any():
            ids = bx.fork[fk]; l, h = L[fk], H[fk]
            for side in (bx.f0, bx.f1):
                d2 = {k: d[fk].copy() for k, d in dec.items()}
                for kk in np.unique(ids).tolist():
                    d = d2.setdefault(KEYR[kk], np.full(len(l), np.nan)); w = ids == kk; d[w] = side[fk][w]
                queue.append((l, h, d2))
    return {'status': 'proved', 'how': 'interval/derivative/rounding-error enclosure over %d boxes of floats' % boxes, 'boxes': boxes}
