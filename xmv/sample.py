"""Concrete input generation for failing-input search, translation validation and bounded stand-ins."""
import numpy as np
from .api import API, WORDS
from . import term as T

SPECIAL = np.array([0, 0x80000000, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0xffffffff, 0x7f800001, 0x7f7fffff, 0xff7fffff, 1, 0x80000001,
    0x007fffff, 0x00800000, 0x4b000000, 0xcb000000, 0x4affffff, 0x4b7fffff, 0x4f000000, 0xcf000000, 0x4f800000, 0x3f000000, 0xbf000000, 0x3fc00000, 0xbfc00000, 0x40200000, 0xc0200000,
    0x3effffff, 0x3f7fffff, 0x3f800001, 0x4effffff, 0x4f7fffff, 0x3f490fdb, 0x40490fdb, 0xc0490fdb, 0x33800000, 0x34000000], dtype=np.uint32)

STRUCT = {'S': 's', 'X': 'x', 'O': 'o', 'R': 'r'}

class Sampler:
    def __init__(self, rng, consts=()):
        self.rng = rng
        c = [k for k in consts]
        self.consts = np.array(c, dtype=np.uint32) if c else None

    def f(self, n, w, mode):
        """float words; mode: 'i' small dyadics, 'n' normals, 'u' uniform, 'x' extreme/specials"""
        r = self.rng
        if mode == 'i': x = (r.integers(-8, 9, (n, w)) * 0.5).astype(np.float32)
        elif mode == 'u': x = r.uniform(-1, 1, (n, w)).astype(np.float32)
        elif mode == 'n': x = (r.standard_normal((n, w)) * 2).astype(np.float32)
        elif mode == 'w': x = (r.standard_normal((n, w)) * np.exp(r.normal(0, 2, (n, w)))).astype(np.float32)
        elif mode == 'x':
            b = r.integers(0, 1 << 32, (n, w), dtype=np.uint64).astype(np.uint32)
            s = r.choice(SPECIAL, (n, w))
            v = (r.standard_normal((n, w)) * np.exp(r.normal(0, 3, (n, w)))).astype(np.float32).view(np.uint32)
            half = (r.integers(-40, 41, (n, w)) * 0.5).astype(np.float32).view(np.uint32)
            q = r.random((n, w))
            return np.where(q < 0.25, b, np.where(q < 0.55, s, np.where(q < 0.8, v, half)))
        b = x.view(np.uint32)
        if self.consts is not None and mode in ('w', 'n'):
            # dictionary of the constants the code mentions, and their neighbours
            q = r.random((n, w)) < 0.06
            c = r.choice(self.consts, (n, w)); c = (c.astype(np.int64) + r.integers(-1, 2, (n, w))).astype(np.uint32)
            c = np.where(r.random((n, w)) < 0.3, c ^ np.uint32(0x80000000), c)
            fin = (c & 0x7f800000) != 0x7f800000
            b = np.where(q & fin, c, b)
        return b

    def quat(self, n, mode):
        r = self.rng
        q = r.standard_normal((n, 4)); q /= np.linalg.norm(q, axis=1, keepdims=True)
        if mode == 'i':
            k = np.array([[0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [.5, .5, .5, .5], [-.5, .5, .5, .5], [.5, -.5, .5, .5], [.5, .5, -.5, .5], [.5, .5, .5, -.5], [0, 0, 0, -1]])
            q = k[r.integers(0, len(k), n)]
        return q.astype(np.float32).view(np.uint32)

    def rot(self, n, mode):
        q = self.quat(n, mode).view(np.float32).astype(np.float64)
        x, y, z, w = q.T
        m = np.zeros((n, 4, 4))
        m[:, 0, 0] = 1 - 2 * (y * y + z * z); m[:, 0, 1] = 2 * (x * y + z * w); m[:, 0, 2] = 2 * (x * z - y * w)
        m[:, 1, 0] = 2 * (x * y - z * w); m[:, 1, 1] = 1 - 2 * (x * x + z * z); m[:, 1, 2] = 2 * (y * z + x * w)
        m[:, 2, 0] = 2 * (x * z + y * w); m[:, 2, 1] = 2 * (y * z - x * w); m[:, 2, 2] = 1 - 2 * (x * x + y * y)
        m[:, 3, 3] = 1
        return m

    def pos(self, n, w, mode):
        return (self.f(n, w, mode) & np.uint32(0x7fffffff))

    def struct(self, k, n, mode):
        r = self.rng
        c = self.f(n, 3, mode if mode != 'x' else 'n')
        if k == 'S': return np.concatenate([c, self.pos(n, 1, mode if mode != 'x' else 'n')], 1)
        e = self.pos(n, 3, mode if mode != 'x' else 'n')
        if k == 'X': return np.concatenate([c, e], 1)
        q = self.quat(n, mode)
        if k == 'O': return np.concatenate([c, e, q], 1)
        if mode == 'i':
            rs = r.integers(1, 4, n) * 0.5; ls = rs - r.integers(1, 5, n) * 0.5; ts = r.integers(1, 4, n) * 0.5; bs = ts - r.integers(1, 5, n) * 0.5
            nr = r.integers(1, 4, n) * 0.5; fa = nr + r.integers(1, 8, n) * 0.5
        else:
            rs = r.uniform(0.1, 2, n); ls = np.where(r.random(n) < 0.5, -r.uniform(0.1, 2, n), rs - r.uniform(0.1, 1, n))
            ts = r.uniform(0.1, 2, n); bs = np.where(r.random(n) < 0.5, -r.uniform(0.1, 2, n), ts - r.uniform(0.1, 1, n))
            nr = r.uniform(0.05, 2, n); fa = nr + r.uniform(0.1, 6, n)
        p = np.stack([rs, ls, ts, bs, nr, fa], 1).astype(np.float32).view(np.uint32)
        return np.concatenate([c, q, p], 1)

    def named(self, g, k, n, mode):
        """contract-specified generators"""
        r = self.rng; w = WORDS[k]
        fm = mode if mode != 'x' else 'n'
        if callable(g): return np.asarray(g(self, n, mode)).astype(np.float32).view(np.uint32).reshape(n, w) if True else None
        if isinstance(g, tuple):
            if g[0] == 'int': return r.integers(g[1], g[2] + 1, (n, w)).astype(np.int64).astype(np.uint32)
            if g[0] == 'u32': return r.choice(np.array(g[1], dtype=np.uint32), (n, w))
            if g[0] == 'words': return np.asarray(g[1](self, n, mode)).astype(np.uint32).reshape(n, w)
            if g[0] == 'uni': return r.uniform(g[1], g[2], (n, w)).astype(np.float32).view(np.uint32)
            if g[0] == 'mix':      # (lo, hi, [special values])
                x = r.uniform(g[1], g[2], (n, w)); q = r.random((n, w)) < 0.25
                return np.where(q, r.choice(np.array(g[3]), (n, w)), x).astype(np.float32).view(np.uint32)
        if g == 'fin': return self.f(n, w, fm)
        if g == 'pos': 
            b = self.pos(n, w, fm); return np.where(b < 0x3a000000, np.uint32(0x3f000000), b)
        if g == 'nn': return self.pos(n, w, fm)
        if g == 'bits': return r.integers(0, 1 << 32, (n, w), dtype=np.uint64).astype(np.uint32)
        if g in ('unit2', 'unit3', 'unit4'):
            d = int(g[4]); v = r.standard_normal((n, 4))
            if mode == 'i':
                v[:, :d] = np.where(np.arange(d)[None, :] == r.integers(0, d, n)[:, None], np.where(r.random(n) < .5, 1, -1)[:, None], 0)
                if d == 4: return self.quat(n, mode)
            v[:, :d] /= np.linalg.norm(v[:, :d], axis=1, keepdims=True)
            return v.astype(np.float32).view(np.uint32)
        if g == 'rot': return self.rot(n, mode).astype(np.float32).view(np.uint32).reshape(n, 16)
        if g == 'affine':
            m = self.f(n, 16, fm).reshape(n, 4, 4); m[:, :3, 3] = 0; m[:, 3, 3] = 0x3f800000; return m.reshape(n, 16)
        if g in ('srt', 'srtpos', 'uniform_srt'):
            m = self.rot(n, mode); s = r.choice([0.5, 1, 2, 4], (n, 3)) if mode == 'i' else r.uniform(0.1, 3, (n, 3))
            if g == 'srt': s = s * np.where(r.random((n, 3)) < .3, -1, 1)
            if g == 'uniform_srt': s = np.repeat(s[:, :1], 3, 1)
            m[:, :3, :3] *= s[:, :, None]
            m[:, 3, :3] = self.f(n, 3, fm).view(np.float32)
            return m.astype(np.float32).view(np.uint32).reshape(n, 16)
        raise KeyError(g)

    def gen(self, name, n, mode, gens):
        a = API[name]; x = np.zeros((n, a['nin']), dtype=np.uint32); pos = 0; r = self.rng
        for j, k in enumerate(a['in']):
            w = WORDS[k]
            g = gens.get(j, gens.get(k))
            if g is not None: b = self.named(g, k, n, mode)
            elif k == 'N': b = r.integers(0, 4, (n, w)).astype(np.uint32)
            elif k == 'B': b = r.integers(0, 2, (n, w)).astype(np.uint32)
            elif k == 'H': b = r.integers(0, 65536, (n, w)).astype(np.uint32)
            elif k in ('U', 'I', 'mU') or 'U' in k:
                b = r.integers(0, 1 << 32, (n, w), dtype=np.uint64).astype(np.uint32)
                b = np.where(r.random((n, w)) < 0.5, r.choice(np.array([0, 1, 2, 3, 4, 5, 6, 7, 8, 0xffffffff, 0x80000000], dtype=np.uint32), (n, w)), b)
            elif k in STRUCT and mode != 'x': b = self.struct(k, n, mode)
            else: b = self.f(n, w, mode)
            x[:, pos:pos + w] = b; pos += w
        # coincidences: copy a word (or a whole parameter, possibly nudged by an ulp) from an earlier parameter of the same shape
        spans = []; pos = 0
        for j, k in enumerate(a['in']):
            w = WORDS[k]; spans.append((pos, w, k, j)); pos += w
        for i in range(1, len(spans)):
            p, w, k, j = spans[i]
            if j in gens or k in gens or k in ('N', 'B', 'U', 'I', 'H'): continue
            for i2 in range(i):
                p2, w2, k2, j2 = spans[i2]
                if w2 != w or k2 in ('N', 'B', 'U', 'I', 'H') or j2 in gens or k in STRUCT: continue
                q = r.random((n, w)) < 0.12
                x[:, p:p + w] = np.where(q, x[:, p2:p2 + w], x[:, p:p + w])
                if w > 1:
                    al = r.random((n, 1)) < 0.05
                    x[:, p:p + w] = np.where(al, x[:, p2:p2 + w], x[:, p:p + w])
                nd = (r.random((n, w)) < 0.04)
                t = (x[:, p2:p2 + w].astype(np.int64) + r.integers(-1, 2, (n, w))).astype(np.uint32)
                ok = (t & 0x7f800000) != 0x7f800000
                x[:, p:p + w] = np.where(nd & ok, t, x[:, p:p + w])
                if mode == 'x': 
                    sg = r.random((n, w)) < 0.04
                    x[:, p:p + w] = np.where(sg, x[:, p2:p2 + w] ^ np.uint32(0x80000000), x[:, p:p + w])
        return x

    def batch(self, name, n, modes, gens):
        parts = []
        k = max(1, n // len(modes))
        for m in modes: parts.append(self.gen(name, k, m, gens))
        return np.concatenate(parts)

def consts_of(roots):
    s = set()
    for t in T.subterms(roots):
        if t.op == 'const' and t.w == 32:
            f = T.b2f(t.data)
            if f == f and abs(f) != float('inf') and abs(f) > 1e-30 and abs(f) < 1e30: s.add(t.data)
    return sorted(s)[:200]
