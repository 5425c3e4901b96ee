"""Symbolic executor: LLVM IR function -> output terms + safety obligations.

Every path of the function is followed; states are merged at immediate
post-dominators, so the result is one term per output word, valid for all
inputs.  Calls to functions that have a contract are replaced by the
contract (requires becomes an obligation); everything else is stepped into.
"""
import re, sys
from . import term as T
from .term import const, TRUE, FALSE, isc, ite, band, bor, bnot, concat, extract, arith, icmp
from . import ir

sys.setrecursionlimit(200000)
OBJSH = 24

class Unsupported(Exception): pass

class Dead(Exception): pass

class EarlyExit(Unsupported): pass      # a loop over a sequence can end before the sequence does
class ManyCalls(Exception): pass

class Loop:
    """a loop over a sequence of unknown length: loop-carried values (variable, value at entry, value after one more element),
    the element of the step, and the position at which the element is taken"""
    def __init__(self, k, where): self.k = k; self.where = where; self.vars = []; self.pt = []; self.pos = None
    def key(self): return (tuple((v.id, b.id if b is not None else None, s.id) for v, b, s in self.vars), tuple(t.id for t in self.pt), self.pos.id)

class Obj:
    __slots__ = ('cells', 'size', 'ro', 'name')
    def __init__(self, size, name='', ro=False):
        self.cells = {}; self.size = size; self.ro = ro; self.name = name
    def copy(self):
        o = Obj(self.size, self.name, self.ro); o.cells = dict(self.cells); return o

class State:
    __slots__ = ('mem', 'own', 'pc')
    def __init__(self):
        self.mem = {}; self.own = set(); self.pc = TRUE
    def fork(self):
        s = State(); s.mem = dict(self.mem); s.own = set(); self.own = set(); s.pc = self.pc
        return s
    def w(self, oid):
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy(); self.mem[oid] = o; self.own.add(oid)
        return o

def nlanes(t): return t[1]

PANIC = re.compile(r'panic|unwrap_failed|expect_failed|slice_.*_fail|_fail|assert_failed|bounds_check|misaligned|null_pointer|const_.*overflow')
# stdarch wrappers whose documentation states that the address need not be aligned
LAXFN = re.compile(r'core_arch::.*::_mm_(load_sd|store_sd|load_ss|store_ss|load1_ps|load_ps1|loadl_pd|loadh_pd|storel_pd|storeh_pd|loadu_\w+|storeu_\w+|loadl_epi64|storel_epi64|load1_pd|broadcast_ss)$')
LIBM = {'sinf': 'sin', 'cosf': 'cos', 'tanf': 'tan', 'asinf': 'asin', 'acosf': 'acos', 'atanf': 'atan', 'sinhf': 'sinh', 'coshf': 'cosh', 'tanhf': 'tanh',
        'expf': 'exp', 'exp2f': 'exp2', 'logf': 'log', 'log2f': 'log2', 'atan2f': 'atan2', 'powf': 'pow', 'fmodf': 'fmod'}

NOSUB = object()

class Exec:
    def __init__(self, mod, contracts=None, target=None, feasible=None, max_steps=4000000):
        self.mod = mod; self.contracts = contracts; self.target = target
        self.feasible = feasible
        self.oblig = []       # (kind, cond-that-must-be-unsat, message)
        self.absorbed = {}
        self.assumes = []     # facts contributed by callee contracts
        self.nid = 1; self.gl = {}; self.gdata = {}
        self.steps = 0; self.max_steps = max_steps
        self.subouts = set(); self.known = set(); self.realmode = False; self.called = {}      # contracts used: name -> count
        self.inlined = set()
        self.uninit = 0
        self.ginit = {}
        self.fnaddr = {}
        self.prune_all = False; self.cpu = None
        self.any = False; self.p0 = None; self.more = None; self.ocalls = []; self.loops = []; self.counters = {}; self.probing = False; self.cur = None; self.ptp = {}
        self.lax = False      # inside a stdarch intrinsic documented as alignment-free

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, align, name='', ro=False):
        oid = self.nid; self.nid += 1
        st.mem[oid] = Obj(size, name, ro); st.own.add(oid)
        return const((oid << OBJSH) | max(align, 1), 64), oid

    def base(self, oid, align=None): return None

    def oblige(self, kind, cond, msg):
        if cond is FALSE: return
        self.oblig.append((kind, cond, msg))

    def resolve(self, st, p, size, align, what):
        """p const -> (oid, off).  Raises Dead when the access is certainly bad."""
        a = p.data
        oid = a >> OBJSH
        o = st.mem.get(oid)
        if o is None and oid in self.ginit:
            o = st.mem[oid] = self.ginit[oid]
        if o is None:
            self.oblige('memory', st.pc, '%s through invalid pointer %#x' % (what, a)); raise Dead()
        off = (a & ((1 << OBJSH) - 1)) - self.aoff(oid)
        if off < 0 or off + size > o.size:
            self.oblige('memory', st.pc, '%s out of bounds of %s (offset %d, size %d, object %d bytes)' % (what, o.name, off, size, o.size)); raise Dead()
        if align > 1 and a % align and not self.lax:
            self.oblige('memory', st.pc, 'misaligned %s of %s (address %% %d = %d)' % (what, o.name, align, a % align)); raise Dead()
        return oid, off

    def aoff(self, oid): return self.al.get(oid, 1)
    al = None

    def new(self, st, size, align, name='', ro=False):
        oid = self.nid; self.nid += 1
        if self.al is None: self.al = {}
        self.al[oid] = max(align, 1)
        o = Obj(size, name, ro)
        st.mem[oid] = o; st.own.add(oid)
        return const((oid << OBJSH) | max(align, 1), 64), oid

    def rd(self, st, oid, off, w):
        """read w bits"""
        o = st.mem[oid]; n = w // 8
        c = o.cells.get(off)
        if c is not None and c.w == w: return c
        # gather
        parts = []; pos = off; end = off + n
        while pos < end:
            c = o.cells.get(pos)
            if c is not None:
                cb = c.w // 8
                take = min(cb, end - pos)
                parts.append(c if take == cb else extract(c, 0, take * 8)); pos += take; continue
            # inside a wider cell?
            for back in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15):
                c = o.cells.get(pos - back)
                if c is not None:
                    cb = c.w // 8
                    if cb > back:
                        take = min(cb - back, end - pos)
                        parts.append(extract(c, back * 8, take * 8)); pos += take
                        break
                    c = None; break
            else:
                c = None
            if c is None:
                # uninitialised byte run
                k = pos
                while k < end and k not in o.cells: k += 1
                v = T.fresh('uninit', (k - pos) * 8); self.uninit += 1
                st.w(oid).cells[pos] = v; o = st.mem[oid]
                parts.append(v); pos = k
        return concat(parts)

    def wr(self, st, oid, off, t):
        o = st.w(oid)
        if o.ro:
            self.oblige('memory', st.pc, 'write to read-only memory ' + o.name); raise Dead()
        n = t.w // 8
        cells = o.cells
        c = cells.get(off)
        if c is not None and c.w == t.w:
            cells[off] = t; return
        self.clear(cells, off, n)
        cells[off] = t

    def clear(self, cells, off, n):
        for back in range(1, 16):
            c = cells.get(off - back)
            if c is not None:
                cb = c.w // 8
                if cb > back:
                    del cells[off - back]
                    cells[off - back] = extract(c, 0, back * 8)
                    if cb > back + n:
                        cells[off + n] = extract(c, (back + n) * 8, (cb - back - n) * 8)
                break
        k = off
        while k < off + n:
            c = cells.get(k)
            if c is not None:
                cb = c.w // 8
                del cells[k]
                if k + cb > off + n:
                    cells[off + n] = extract(c, (off + n - k) * 8, (k + cb - off - n) * 8)
            k += 1

    def load(self, st, t, p, align, what='load'):
        if not isc(p):
            return self.load_sym(st, t, p, align)
        size = ir.sizeof(t)
        if size == 0: return self.undef(t)
        oid, off = self.resolve(st, p, size, align, what)
        return self.load_at(st, t, oid, off)

    def load_at(self, st, t, oid, off):
        k = t[0]
        if k == 'i':
            w = t[1]
            if w % 8 == 0 and w <= 64: return self.rd(st, oid, off, w)
            v = self.rd(st, oid, off, ir.sizeof(t) * 8)
            return extract(v, 0, w)
        if k == 'f': return self.rd(st, oid, off, t[1])
        if k == 'p': return self.rd(st, oid, off, 64)
        if k == 'vec':
            ew = ir.bitwidth(t[2])
            if ew % 8:
                v = self.rd(st, oid, off, ir.sizeof(t) * 8)
                return [extract(v, i * ew, ew) for i in range(t[1])]
            return [self.rd(st, oid, off + i * ew // 8, ew) for i in range(t[1])]
        if k == 'arr':
            s = ir.sizeof(t[2]); return [self.load_at(st, t[2], oid, off + i * s) for i in range(t[1])]
        if k == 'st':
            return [self.load_at(st, ft, oid, off + ir.field_offset(t, i)[0]) for i, ft in enumerate(t[1])]
        raise Unsupported('load type')

    def store(self, st, t, v, p, align):
        if not isc(p):
            return self.store_sym(st, t, v, p, align)
        size = ir.sizeof(t)
        if size == 0: return
        oid, off = self.resolve(st, p, size, align, 'store')
        self.store_at(st, t, v, oid, off)

    def store_at(self, st, t, v, oid, off):
        k = t[0]
        if k in ('i', 'f', 'p'):
            w = ir.bitwidth(t)
            if w % 8: v = T.mk_zext(v, ir.sizeof(t) * 8)
            if v.w == 128:
                for i in range(4): self.wr(st, oid, off + 4 * i, extract(v, 32 * i, 32))
            else:
                self.wr(st, oid, off, v)
        elif k == 'vec':
            ew = ir.bitwidth(t[2])
            if ew % 8:
                x = T.mk_zext(concat(v), ir.sizeof(t) * 8); self.wr(st, oid, off, x); return
            for i in range(t[1]): self.wr(st, oid, off + i * ew // 8, v[i])
        elif k == 'arr':
            s = ir.sizeof(t[2])
            for i in range(t[1]): self.store_at(st, t[2], v[i], oid, off + i * s)
        elif k == 'st':
            for i, ft in enumerate(t[1]): self.store_at(st, ft, v[i], oid, off + ir.field_offset(t, i)[0])
        else: raise Unsupported('store type')

    def cands(self, st, p, size, align, guard=TRUE):
        """candidate concrete addresses of a symbolic pointer: base + c*idx, or ite of pointers"""
        if isc(p): return [(TRUE, p)]
        if p.op == 'ite':
            r = []
            for g, q in self.cands(st, p.args[1], size, align, band(guard, p.args[0])): r.append((band(p.args[0], g), q))
            for g, q in self.cands(st, p.args[2], size, align, band(guard, bnot(p.args[0]))): r.append((band(bnot(p.args[0]), g), q))
            return r
        if p.op == 'add':
            for x, y in ((p.args[0], p.args[1]), (p.args[1], p.args[0])):
                if x.op == 'ite' and all(isc(q) or q.op == 'ite' for q in x.args[1:]):
                    r = []
                    for g, q in self.cands(st, arith('add', x.args[1], y), size, align, band(guard, x.args[0])): r.append((band(x.args[0], g), q))
                    for g, q in self.cands(st, arith('add', x.args[2], y), size, align, band(guard, bnot(x.args[0]))): r.append((band(bnot(x.args[0]), g), q))
                    return r
        if p.op == 'add' and isc(p.args[1]):
            base = p.args[1].data; oid = base >> OBJSH
            o = st.mem.get(oid) or self.ginit.get(oid)
            if o is None or o.size > 512: raise Unsupported('symbolic pointer')
            if oid not in st.mem: st.mem[oid] = o
            off0 = (base & ((1 << OBJSH) - 1)) - self.aoff(oid)
            res = []; anyg = FALSE
            step = max(1, min(align, size))
            for off in range(off0 % step, o.size - size + 1, step):
                c = const(base - off0 + off, 64)
                g = icmp('eq', p, c)
                if g is FALSE: continue
                res.append((g, c)); anyg = bor(anyg, g)
            self.oblige('memory', band(band(st.pc, guard), bnot(anyg)), 'symbolic index out of bounds of %s' % o.name)
            return res
        raise Unsupported('symbolic pointer %s' % T.show(p))

    def viable(self, st, g, c):
        """a candidate that points nowhere counts only if it can be reached"""
        if (c.data >> OBJSH) in st.mem or (c.data >> OBJSH) in self.ginit: return True
        cond = band(st.pc, g)
        if cond is FALSE: return False
        return self.feasible is None or self.feasible(cond, self.assumes + (self.counter_facts() if self.counters else []))

    def load_sym(self, st, t, p, align):
        cs = [(g, c) for g, c in self.cands(st, p, ir.sizeof(t), align) if self.viable(st, g, c)]
        r = None
        for g, c in reversed(cs):
            v = self.load(st, t, c, align)
            r = v if r is None else self.merge_val(g, v, r)
        if r is None: raise Dead()
        return r

    def store_sym(self, st, t, v, p, align):
        for g, c in self.cands(st, p, ir.sizeof(t), align):
            if not self.viable(st, g, c): continue
            old = self.load(st, t, c, align)
            self.store(st, t, self.merge_val(g, v, old), c, align)

    def memcpy(self, st, d, s, n):
        if n == 0: return
        if not isc(d) or not isc(s):
            # word-wise through the symbolic path
            if n % 4: raise Unsupported('symbolic memcpy')
            vals = [self.load(st, ('i', 32), arith('add', s, const(4 * i, 64)), 4) for i in range(n // 4)]
            for i, v in enumerate(vals):
                self.store(st, ('i', 32), v, arith('add', d, const(4 * i, 64)), 4)
            return
        so, sf = self.resolve(st, s, n, 1, 'memcpy read')
        do, df = self.resolve(st, d, n, 1, 'memcpy write')
        src = st.mem[so]
        items = []
        pos = 0
        covered = set()
        for off, c in list(src.cells.items()):
            cb = c.w // 8
            if off + cb <= sf or off >= sf + n: continue
            if off < sf or off + cb > sf + n:
                a = max(off, sf); b = min(off + cb, sf + n)
                items.append((a - sf, extract(c, (a - off) * 8, (b - a) * 8)))
            else:
                items.append((off - sf, c))
        dst = st.w(do)
        if dst.ro:
            self.oblige('memory', st.pc, 'write to read-only memory ' + dst.name); raise Dead()
        # uninitialised source bytes stay uninitialised in the destination
        if all(k < df or k >= df + n for k in dst.cells) and not any((dst.cells.get(df - b) is not None and dst.cells[df - b].w // 8 > b) for b in range(1, 16)):
            pass
        else:
            self.clear(dst.cells, df, n)
        for off, c in items: dst.cells[df + off] = c

    # ------------------------------------------------------------ globals
    def glob(self, st, name):
        name = name[1:].strip('"')
        if name in self.gl: return self.gl[name]
        if name in self.mod.funcs or name in self.mod.decl:
            a = const((1 << 60) | len(self.fnaddr), 64)
            self.fnaddr[a.data] = name; self.gl[name] = a
            return a
        txt = self.mod.globals.get(name)
        if txt is None: raise Unsupported('global ' + name)
        m = re.match(r'(?:(?:private|internal|external|linkonce_odr|hidden|unnamed_addr|local_unnamed_addr|dso_local|thread_local|weak|available_externally|constant|global)\s+)*', txt)
        head = m.group(0); rest = txt[m.end():]
        p = ir.P(ir.tokenize(rest))
        t = ir.ptype(p)
        al = ir.alignof(t)
        ma = re.search(r', align (\d+)', rest)
        if ma: al = int(ma.group(1))
        oid = self.nid; self.nid += 1
        if self.al is None: self.al = {}
        self.al[oid] = al
        o = Obj(ir.sizeof(t), '@' + name[:24], False)
        tmp = State(); tmp.mem[oid] = o; tmp.own.add(oid)
        a = const((oid << OBJSH) | al, 64)
        self.gl[name] = a
        if 'external' not in head:
            self.ginit[oid] = o
            v = ir.pvalue(p, t)
            self.init_store(tmp, t, v, oid, 0)
        o = tmp.mem[oid]
        o.ro = 'constant' in head
        self.ginit[oid] = o
        return a

    def init_store(self, st, t, v, oid, off):
        if v[0] == 'bytes':
            b = v[1]; i = 0
            while i < len(b):
                k = 4 if len(b) - i >= 4 else 1
                self.wr(st, oid, off + i, const(int.from_bytes(b[i:i+k], 'little'), 8 * k)); i += k
            return
        if v[0] == 'undef': return
        if t[0] in ('arr', 'st') and v[0] == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                fo, _ = ir.field_offset(t, i); self.init_store(st, et, ev, oid, off + fo)
            return
        self.store_at(st, t, self.cval(st, t, v), oid, off)

    def undef(self, t):
        k = t[0]
        if k in ('i', 'f', 'p'): self.uninit += 1; return T.fresh('undef', ir.bitwidth(t))
        if k in ('vec', 'arr'): return [self.undef(t[2]) for _ in range(t[1])]
        if k == 'st': return [self.undef(x) for x in t[1]]
        return None

    def zero(self, t):
        k = t[0]
        if k in ('i', 'f', 'p'): return const(0, ir.bitwidth(t))
        if k in ('vec', 'arr'): return [self.zero(t[2]) for _ in range(t[1])]
        if k == 'st': return [self.zero(x) for x in t[1]]

    def cval(self, st, t, o):
        k = o[0]
        if k == 'c': return const(o[1], ir.bitwidth(t))
        if k == 'glob': return self.glob(st, o[1])
        if k == 'undef': return self.undef(t)
        if k == 'zero': return self.zero(t)
        if k == 'agg': return [self.cval(st, et, e) for et, e in o[1]]
        if k == 'bytes': return [const(x, 8) for x in o[1]]
        if k == 'gep': return self.gep(st, o[1], self.cval(st, ('p',), o[2]), [(it, self.cval(st, it, iv)) for it, iv in o[3]])
        raise Unsupported('const %r' % (o,))

    def gep(self, st, bt, base, idx):
        p = base; t = bt
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                s = ir.sizeof(t)
            elif t[0] == 'st':
                fo, t = ir.field_offset(t, iv.data)
                p = arith('add', p, const(fo, 64)); continue
            else:
                s = ir.sizeof(t[2]); t = t[2]
            iv = T.mk_sext(iv, 64) if iv.w < 64 else iv
            p = arith('add', p, arith('mul', iv, const(s, 64)))
        return p

    # ------------------------------------------------------------ values
    def merge_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, list):
            return [self.merge_val(c, x, y) for x, y in zip(a, b)]
        if a is None or b is None: return a if b is None else b
        return ite(c, a, b)

    def merge(self, c, s1, s2):
        """merge two states: s1 under c, s2 under not c; result in s1"""
        m1, m2 = s1.mem, s2.mem
        for oid, o1 in list(m1.items()):
            o2 = m2.get(oid)
            if o2 is None:
                if oid not in self.ginit: del m1[oid]
                continue
            if o1 is o2: continue
            c1, c2 = o1.cells, o2.cells
            if c1 == c2: continue
            w = s1.w(oid); c1 = w.cells
            keys = sorted(set(c1) | set(c2))
            out = {}
            ok = True
            for k in keys:
                a, b = c1.get(k), c2.get(k)
                if a is not None and b is not None and a.w == b.w: continue
                ok = False; break
            if ok:
                for k in keys: out[k] = ite(c, c1[k], c2[k])
            else:
                # cut both at the union of boundaries
                cuts = set()
                for cc in (c1, c2):
                    for k, v in cc.items(): cuts.add(k); cuts.add(k + v.w // 8)
                cuts = sorted(cuts)
                for i in range(len(cuts) - 1):
                    lo, hi = cuts[i], cuts[i + 1]
                    a = self.piece(c1, lo, hi); b = self.piece(c2, lo, hi)
                    if a is None and b is None: continue
                    if a is None: a = T.fresh('uninit', (hi - lo) * 8); self.uninit += 1
                    if b is None: b = T.fresh('uninit', (hi - lo) * 8); self.uninit += 1
                    out[lo] = ite(c, a, b)
            w.cells = out
        return s1

    def piece(self, cells, lo, hi):
        for back in range(0, 16):
            c = cells.get(lo - back)
            if c is not None:
                if c.w // 8 > back: return extract(c, back * 8, (hi - lo) * 8)
                return None
        return None

    # ------------------------------------------------------------ running
    def call_fn(self, f, args, st, depth=0):
        """returns (state, retval); raises Dead"""
        self.mod.parse(f)
        if depth > 120: raise Unsupported('call depth')
        env = {}
        for (t, nm, sret), a in zip(f.params, args):
            if nm is not None: env[nm] = a
        entry = f.order[0]
        if entry not in f.reach:
            self.oblige('panic', st.pc, 'call to diverging function %s' % f.pretty); raise Dead()
        if self.cpu is not None and not f.feats <= self.cpu:
            self.oblige('target-feature', st.pc, '%s needs %s, which this configuration does not enable' % (f.pretty, ','.join(sorted(f.feats - self.cpu))))
        before = self.nid
        lax0 = self.lax
        if LAXFN.search(f.pretty): self.lax = True
        try: st, env = self.run(f, entry, env, st, depth)
        finally: self.lax = lax0
        ret = env.get('$ret')
        for oid in [k for k in st.mem if k >= before and k not in self.ginit]: del st.mem[oid]
        return st, ret

    # ------------------------------------------------------------ sequences of unknown length
    def point(self, key, ws):
        """pointer to a read-only element of the sequence"""
        if key not in self.ptp:
            oid = self.nid; self.nid += 1
            if self.al is None: self.al = {}
            self.al[oid] = 4
            o = Obj(4 * len(ws), 'element of the sequence', True); o.cells = {4 * i: w for i, w in enumerate(ws)}
            self.ginit[oid] = o; self.ptp[key] = const((oid << OBJSH) | 4, 64)
        return self.ptp[key]

    def xmv_next(self, pos):
        self.ocalls.append(pos)
        if self.probing and len(self.ocalls) > 1: raise ManyCalls()
        if self.more is False: return const(0, 64)
        if isc(pos) and pos.data == 0: return self.point('p0', self.p0)
        if self.more is True: return self.point(self.cur.k, self.cur.pt)
        raise Unsupported('element %s of a sequence of unknown length' % T.show(pos)[:40])

    def counter_facts(self): return [icmp('ule', const(lo, v.w), v) for v, lo in self.counters.values()] + [icmp('ult', v, const(1 << 31, v.w)) for v, lo in self.counters.values()]
    def possible(self, g):
        """is a condition over counters alone satisfiable?"""
        vs = {t.data for t in T.subterms([g]) if t.op == 'var'}
        if not vs or not vs <= set(self.counters): return True
        from . import smt
        return smt.check(g, self.counter_facts(), timeout=3.0, use_cvc5=False)[0] != 'unsat'

    def probe(self, f, blk, env, st, depth):
        """how does one iteration of the loop use the sequence? -> positions taken, or None"""
        n, m = len(self.oblig), len(self.assumes); called = dict(self.called)
        self.more, self.probing, self.ocalls, self.cur = True, True, [], Loop('probe', ''); self.cur.pt = [T.var('probe%d' % i) for i in range(3)]
        try: self.run(f, blk, dict(env), st.fork(), depth, region=blk); r = list(self.ocalls)
        except ManyCalls: r = None
        except (Dead, Unsupported): r = list(self.ocalls)
        finally:
            self.more, self.probing = None, False; del self.oblig[n:]; del self.assumes[m:]; self.called = called
        return r

    def induct(self, f, blk, env, st, depth):
        """-> exit states of the loop (after any number of further elements), with the loop recorded in self.loops"""
        L = Loop(len(self.loops), f.pretty); L.pt = [T.var('pt%d_%d' % (L.k, i)) for i in range(3)]; self.cur = L
        n, m = len(self.oblig), len(self.assumes); called = dict(self.called)
        hav = {}          # ('m', oid, off, width) | ('e', name, i) -> (variable, entry value)
        def fresh(w): L_n[0] += 1; return T.var('lp%d_%d_%d' % (L.k, L_n[0], w), w)
        L_n = [0]
        def header():
            s = st.fork(); e = dict(env)
            for k, (v, _) in hav.items():
                if k[0] == 'm':
                    o = s.w(k[1]); self.clear(o.cells, k[2], k[3] // 8); o.cells[k[2]] = v
            for nm in {k[1] for k in hav if k[0] == 'e'}:
                fl = self.flat(e[nm]); fl = [hav[('e', nm, i)][0] if ('e', nm, i) in hav else t for i, t in enumerate(fl)]
                e[nm] = self.reshape(e[nm], iter(fl))
            return s, e
        def once(more):
            s, e = header(); self.more = more; self.ocalls = []
            s0, e0 = s.fork(), dict(e)
            try: r = self.run(f, blk, e, s, depth, region=blk)
            finally: self.more = None
            return (s0, e0) + r
        for rnd in range(16):
            del self.oblig[n:]; del self.assumes[m:]; self.called = dict(called)
            s0, e0, backs, exits = once(True)
            if not backs: raise Unsupported('loop in %s does not continue with the next element' % f.pretty)
            if len(self.ocalls) != 1: raise Unsupported('loop takes several elements at once')
            pos = self.ocalls[0]
            _, b, be, _, _ = self.join(backs)
            new = []
            for nm, v in e0.items():
                if nm not in be: continue
                for i, (x, y) in enumerate(zip(self.flat(v), self.flat(be[nm]))):
                    if x is not y and ('e', nm, i) not in hav: new.append((('e', nm, i), x.w, x))
            for oid in sorted(s0.mem):
                c0, c1 = s0.mem[oid].cells, b.mem[oid].cells if oid in b.mem else {}
                if c0 is c1 or (len(c0) == len(c1) and all(c1.get(k) is c for k, c in c0.items())): continue
                cut = sorted({k for c in (c0, c1) for k, t in c.items()} | {k + t.w // 8 for c in (c0, c1) for k, t in c.items()})
                for lo, hi in zip(cut, cut[1:]):
                    x, y = self.piece(c0, lo, hi), self.piece(c1, lo, hi)
                    if x is y: continue
                    k = ('m', oid, lo, (hi - lo) * 8)
                    if k not in hav: new.append((k, k[3], self.piece(st.mem[oid].cells, lo, hi)))
            for k, w, base in new:
                if k[0] == 'm':
                    for j in [j for j in hav if j[0] == 'm' and j[1] == k[1] and j[2] < k[2] + k[3] // 8 and k[2] < j[2] + j[3] // 8]: del hav[j]
                hav[k] = (fresh(w), base)
            def stepv(k):
                if k[0] == 'e': return self.flat(be[k[1]])[k[2]]
                return self.piece(b.mem[k[1]].cells, k[2], k[2] + k[3] // 8)
            if new: continue
            fresh_counter = False
            for k, (v, base) in hav.items():
                sv = stepv(k)
                isctr = base is not None and isc(base) and v.w in (32, 64) and sv is not None and sv.op == 'add' and sv.args[0] is v and isc(sv.args[1]) and 0 < sv.args[1].data < 256 and base.data < 1 << 30
                if isctr and v.data not in self.counters: self.counters[v.data] = (v, base.data); fresh_counter = True
                if not isctr and v.data in self.counters: raise Unsupported('counter')
            if not fresh_counter: break
        else: raise Unsupported('loop does not stabilise')
        if exits: raise EarlyExit('a loop in %s can stop before the end of the sequence' % f.pretty)
        L.vars = [(v, base, stepv(k)) for k, (v, base) in hav.items()]; L.pos = pos
        if any(x is None for _, _, x in L.vars): raise Unsupported('partial loop state')
        _, _, backs, exits = once(False)
        if backs: raise Unsupported('loop goes on after the end of the sequence')
        self.assumes.extend(self.counter_facts()[:]); self.loops.append(L)
        return exits

    def reshape(self, v, it):
        return [self.reshape(x, it) for x in v] if isinstance(v, list) else next(it)

    def run(self, f, entry, env, st, depth, region=None):
        """executes f from its entry; states that meet at a block (in the same loop iteration) are merged there.
        A state carries the branch decisions that distinguish it from the other states of this activation."""
        import heapq
        base = base0 = st.pc
        pend = {}; heap = []
        def push(b, s, e, lits, iters):
            it = {}
            for h in f.chain[b]: it[h] = iters.get(h, 0)
            key = tuple(x for h in f.chain[b] for x in (f.rpo[h], it[h])) + (f.rpo[b],)
            lv = f.live[b]
            e = {k: v for k, v in e.items() if k in lv}
            if key in pend: pend[key].append([b, s, e, lits, it])
            else: pend[key] = [[b, s, e, lits, it]]; heapq.heappush(heap, key)
        done = []; backs = []; exits = []; peel = set()
        push(entry, st, env, (), {})
        while heap:
            key = heapq.heappop(heap)
            blk, st, env, lits, iters = self.join(pend.pop(key))
            # branches none of whose other outcomes is still under way have been closed
            others = {k for q in list(pend.values()) + [done, backs, exits] for w in q for x in w[3] for k in self.fork_ids(x)}
            while lits and not self.fork_ids(lits[-1]) & others: lits = lits[:-1]
            st.pc = base
            for _, g in lits: st.pc = band(st.pc, g)
            if self.any and self.more is None and blk in f.chain[blk]:
                go = iters[blk] == 1 and (f.name, blk) in peel
                if iters[blk] == 0:
                    peel.discard((f.name, blk))
                    ps = self.probe(f, blk, env, st, depth)
                    if ps and isc(ps[0]):
                        if ps[0].data == 0: peel.add((f.name, blk))
                        else: go = True
                if go:
                    for b, s, e, l, _ in self.induct(f, blk, env, st, depth):
                        it = dict(iters)
                        if b in f.chain[b]: it[b] = iters[b] + 1 if b in f.chain[blk] else 0
                        push(b, s, e, lits + l, it)
                    continue
            try: arms = self.block(f, blk, env, st, depth)
            except Dead: continue
            if arms is None:
                done.append([None, self.last, {'$ret': env.get('$ret')}, lits, {}]); continue
            st, live = arms
            if not live: continue
            if self.checked is not None:      # a panic check passed: what it tested holds from here on
                pl = TRUE
                for _, g in lits: pl = band(pl, g)
                base = band(base, bor(bnot(pl), self.checked))
                st.pc = band(st.pc, self.checked)
            if len(live) > 1 and self.feasible and (self.prune_all or any(v > 1 for v in iters.values())) and (self.prune_all or any(v > 12 for v in iters.values()) or not any(t.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fsqrt', 'app') for g, _ in live for t in T.subterms([g]))):
                live = [(g, b) for g, b in live if self.feasible(band(st.pc, g), self.assumes)]
            if len(live) > 1 and self.counters: live = [(g, b) for g, b in live if self.possible(g)]
            if any(v > 64 for v in iters.values()): raise Unsupported('unbounded loop at %s in %s' % (blk, f.pretty))
            fid = None
            if len(live) > 1: self.forks += 1; fid = self.forks
            for i, (g, b) in enumerate(live):
                s = st.fork() if i < len(live) - 1 else st
                if i == len(live) - 1: s.own = set()
                e = dict(env)
                if fid is not None: s.pc = band(st.pc, g) if s is not st else s.pc
                self.phis(f, b, blk, e, s)
                it = dict(iters)
                if region is not None and (b == region or region not in f.chain[b]):
                    l = lits if fid is None else lits + ((fid, g),); lv = f.live[b]
                    (backs if b == region else exits).append([b, s, {k: v for k, v in e.items() if k in lv}, l, {}]); continue
                if b in f.chain[b]:          # loop header: next iteration, or entry from outside
                    it[b] = iters[b] + 1 if b in f.chain[blk] else 0
                push(b, s, e, lits if fid is None else lits + ((fid, g),), it)
        if region is not None:
            if done: raise Unsupported('return inside a loop')
            return backs, exits
        if not done: raise Dead()
        _, st, env, lits, _ = self.join(done)
        st.pc = base0
        return st, env
    forks = 0

    def fork_ids(self, lit):
        """the branches a path literal speaks about (a literal left by a join stands for those of the joined paths)"""
        return {lit[0]} | self.absorbed.get((lit[0], lit[1].id), set())

    def join(self, ss):
        """merge the states that arrived at one block"""
        ss = list(ss)
        while len(ss) > 1:
            best = None
            for i in range(len(ss)):
                for j in range(i + 1, len(ss)):
                    a, b = ss[i][3], ss[j][3]; n = 0
                    while n < len(a) and n < len(b) and a[n] == b[n]: n += 1
                    if best is None or n > best[0]: best = (n, i, j)
            n, i, j = best
            x, y = ss[i], ss[j]
            r1, r2 = x[3][n:], y[3][n:]
            if not r1 or not r2: raise Unsupported('undistinguished paths')
            c1 = TRUE; c2 = TRUE
            for _, g in r1: c1 = band(c1, g)
            for _, g in r2: c2 = band(c2, g)
            if r1[0][0] == r2[0][0] and r1[0][1] is bnot(r2[0][1]): c = r1[0][1]     # the fork itself tells them apart
            elif len(r1) <= len(r2): c = c1
            else: c = bnot(c2)
            st = self.merge(c, x[1], y[1])
            env = {}
            for k, v in x[2].items():
                if k in y[2]:
                    u = y[2][k]
                    if u is v: env[k] = v
                    else:
                        try: env[k] = self.merge_val(c, v, u)
                        except Exception: pass
            lits = x[3][:n]
            if not (len(r1) == len(r2) == 1 and r1[0][1] is bnot(r2[0][1])):
                l = (r1[0][0], bor(c1, c2)); lits = lits + (l,)
                self.absorbed.setdefault((l[0], l[1].id), set()).update(*[self.fork_ids(q) for q in r1 + r2])
            ss[i] = [x[0], st, env, lits, x[4]]; del ss[j]
        return ss[0]

    def block(self, f, blk, env, st, depth):
        """execute one block: None after a return (state in self.last), else (state, live successors with their conditions)"""
        ins = None
        for ins in f.blocks[blk]:
            op = ins[0]
            if op == 'phi': continue
            if op in ('br', 'switch', 'ret', 'unreachable'): break
            self.steps += 1
            if self.steps > self.max_steps: raise Unsupported('step limit')
            st = self.instr(f, ins, env, st, depth)
            if op == 'call' and ins[5]: break
        op = ins[0]
        if op == 'call': arms = [(TRUE, ins[5])]
        elif op == 'ret':
            env['$ret'] = self.val(env, st, ins[2], ins[3]) if ins[2] is not None else None
            self.last = st
            return None
        elif op == 'unreachable':
            self.oblige('unreachable', st.pc, 'unreachable code in ' + f.pretty); raise Dead()
        elif op == 'br':
            if ins[2] is None: arms = [(TRUE, ins[3])]
            else:
                c = self.val(env, st, ('i', 1), ins[2])
                arms = [(c, ins[3]), (bnot(c), ins[4])] if ins[3] != ins[4] else [(TRUE, ins[3])]
        else:
            v = self.val(env, st, ins[2], ins[3])
            rest = TRUE; by = {}
            for k, b in ins[5]:
                g = icmp('eq', v, const(k, v.w)); g2 = band(rest, g)
                rest = band(rest, bnot(g))
                by[b] = bor(by.get(b, FALSE), g2)
            by[ins[4]] = bor(by.get(ins[4], FALSE), rest)
            arms = [(g, b) for b, g in by.items()]
        live = []; self.checked = None
        for g, b in arms:
            if g is FALSE: continue
            if b not in f.reach:
                kind = 'unreachable' if f.blocks[b][-1][0] == 'unreachable' and len(f.blocks[b]) == 1 else 'panic'
                self.oblige(kind, band(st.pc, g), self.panic_msg(f, b))
            else: live.append((g, b))
        if len(live) < len(arms) and live:
            ok = FALSE
            for g, _ in live: ok = bor(ok, g)
            if ok is not TRUE: self.checked = ok
        return st, live

    def only_unreachable(self, f, b):
        return False

    def panic_msg(self, f, b):
        for ins in f.blocks[b]:
            if ins[0] == 'call':
                nm = ins[3].strip('@"')
                d = self.mod.decl.get(nm); p = d[0] if d else (self.mod.funcs[nm].pretty if nm in self.mod.funcs else nm)
                return 'panic in %s (%s)' % (f.pretty, p)
        return 'diverging block in ' + f.pretty

    def phis(self, f, b, pred, env, st):
        if b == '$exit' or b not in f.blocks: return
        new = {}
        for ins in f.blocks[b]:
            if ins[0] != 'phi': break
            for v, pb in ins[3]:
                if pb == pred: new[ins[1]] = self.val(env, st, ins[2], v); break
        env.update(new)

    def val(self, env, st, t, o):
        if o[0] == 'loc':
            v = env.get(o[1])
            if v is None:
                if o[1] not in env: raise Unsupported('undefined local ' + o[1])
            return v
        if o[0] == 'c': return const(o[1], ir.bitwidth(t))
        return self.cval(st, t, o)

    def vmap(self, f, *vs):
        if isinstance(vs[0], list): return [f(*x) for x in zip(*vs)]
        return f(*vs)

    def flat(self, v):
        """value -> list of terms (LSB first)"""
        if isinstance(v, list):
            r = []
            for x in v: r.extend(self.flat(x))
            return r
        return [v]

    def recast(self, v, t):
        """bitcast"""
        fl = self.flat(v)
        if t[0] == 'vec':
            ew = ir.bitwidth(t[2])
            if all(x.w == ew for x in fl): return fl
            c = concat(fl); return [extract(c, i * ew, ew) for i in range(t[1])]
        return concat(fl)

    def instr(self, f, ins, env, st, depth):
        op = ins[0]; dst = ins[1]
        if op == 'load':
            env[dst] = self.load(st, ins[2], self.val(env, st, ('p',), ins[3]), ins[4])
        elif op == 'store':
            self.store(st, ins[2], self.val(env, st, ins[2], ins[3]), self.val(env, st, ('p',), ins[4]), ins[5])
        elif op == 'alloca':
            n = 1
            if ins[3] is not None: n = self.val(env, st, ins[3][0], ins[3][1]).data
            env[dst], _ = self.new(st, ir.sizeof(ins[2]) * n, ins[4], 'local %s of %s' % (dst, f.pretty[-40:]))
        elif op == 'gep':
            env[dst] = self.gep(st, ins[2], self.val(env, st, ('p',), ins[3]), [(it, self.val(env, st, it, iv)) for it, iv in ins[4]])
        elif op == 'bin':
            t = ins[3]; a = self.val(env, st, t, ins[4]); b = self.val(env, st, t, ins[5]); o = ins[2]
            env[dst] = self.vmap(lambda x, y: self.binop(o, x, y, st), a, b)
        elif op == 'fneg':
            env[dst] = self.vmap(T.fneg, self.val(env, st, ins[2], ins[3]))
        elif op == 'icmp':
            t = ins[3]; a = self.val(env, st, t, ins[4]); b = self.val(env, st, t, ins[5]); p = ins[2]
            env[dst] = self.vmap(lambda x, y: self.icmp(p, x, y), a, b)
        elif op == 'fcmp':
            t = ins[3]; a = self.val(env, st, t, ins[4]); b = self.val(env, st, t, ins[5]); p = ins[2]
            env[dst] = self.vmap(lambda x, y: fcmp(p, x, y), a, b)
        elif op == 'select':
            c = self.val(env, st, ins[2], ins[3]); a = self.val(env, st, ins[4], ins[5]); b = self.val(env, st, ins[4], ins[6])
            if isinstance(c, list): env[dst] = [ite(x, y, z) for x, y, z in zip(c, a, b)]
            else: env[dst] = self.merge_val(c, a, b) if c.op != 'const' else (a if c.data else b)
        elif op == 'cast':
            env[dst] = self.cast(ins[2], ins[3], self.val(env, st, ins[3], ins[4]), ins[5])
        elif op == 'call':
            return self.call(f, ins, env, st, depth)
        elif op == 'ee':
            v = self.val(env, st, ins[2], ins[3]); i = self.val(env, st, ('i', 64), ins[4])
            if isc(i):
                env[dst] = v[i.data] if i.data < len(v) else self.undef(ins[2][2])
            else:
                r = v[-1]
                for k in range(len(v) - 1): r = ite(icmp('eq', i, const(k, i.w)), v[k], r)
                env[dst] = r
        elif op == 'ie':
            v = self.val(env, st, ins[2], ins[3]); e = self.val(env, st, ins[2][2], ins[4]); i = self.val(env, st, ('i', 64), ins[5])
            if isc(i): r = list(v); r[i.data] = e
            else: r = [ite(icmp('eq', i, const(k, i.w)), e, v[k]) for k in range(len(v))]
            env[dst] = r
        elif op == 'sv':
            a = self.val(env, st, ins[2], ins[3]); b = self.val(env, st, ins[2], ins[4]) if ins[4][0] != 'undef' else None
            m = ins[6]; n = len(a)
            if m[0] == 'zero': idx = [0] * ins[5][1]
            else: idx = [x[1][1] if x[1][0] == 'c' else None for x in m[1]] if m[0] == 'agg' else [None] * ins[5][1]
            r = []
            for k in idx:
                if k is None: r.append(self.undef(ins[2][2]))
                elif k < n: r.append(a[k])
                else: r.append(b[k - n] if b is not None else self.undef(ins[2][2]))
            env[dst] = r
        elif op == 'ev':
            v = self.val(env, st, ins[2], ins[3])
            for k in ins[4]: v = v[k]
            env[dst] = v
        elif op == 'iv':
            v = self.val(env, st, ins[2], ins[3]); e = self.val(env, st, ins[4], ins[5])
            def put(v, idx):
                r = list(v); r[idx[0]] = e if len(idx) == 1 else put(r[idx[0]], idx[1:]); return r
            env[dst] = put(v, ins[6])
        elif op == 'freeze':
            env[dst] = self.val(env, st, ins[2], ins[3])
        elif op == 'nop': pass
        else:
            raise Unsupported('instruction %r' % (ins,))
        return st

    def icmp(self, p, x, y):
        if p == 'eq': return icmp('eq', x, y)
        if p == 'ne': return bnot(icmp('eq', x, y))
        if p in ('ult', 'ule', 'slt', 'sle'): return icmp(p, x, y)
        if p == 'ugt': return icmp('ult', y, x)
        if p == 'uge': return icmp('ule', y, x)
        if p == 'sgt': return icmp('slt', y, x)
        if p == 'sge': return icmp('sle', y, x)
        raise Unsupported('icmp ' + p)

    def binop(self, o, x, y, st):
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'): return T.f2(o, x, y)
        if o == 'frem': return T.app('fmod', x.w, x, y)
        if o == 'and': return band(x, y)
        if o == 'or': return bor(x, y)
        if o == 'xor': return T.bxor(x, y)
        if o in ('shl', 'lshr', 'ashr'):
            # LLVM: shift amount >= width is poison; rustc masks the amount first
            return arith(o, x, y)
        if o in ('add', 'sub', 'mul'): return arith(o, x, y)
        if o in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige('divide', band(st.pc, icmp('eq', y, const(0, y.w))), 'division by zero')
            return arith(o, x, y)
        raise Unsupported('bin ' + o)

    def cast(self, o, t, v, t2):
        if o in ('bitcast',): return self.recast(v, t2)
        if o in ('ptrtoint', 'inttoptr', 'ptrtoaddr', 'addrspacecast'): return v
        et = t2[2] if t2[0] == 'vec' else t2
        w = ir.bitwidth(et)
        def one(x):
            if o == 'trunc': return extract(x, 0, w)
            if o == 'zext': return T.mk_zext(x, w)
            if o == 'sext': return T.mk_sext(x, w)
            if o == 'sitofp': return T.sitofp(x, w)
            if o == 'uitofp': return T.uitofp(x, w)
            if o == 'fptosi': return T.fptosi(x, w)
            if o == 'fptoui': return T.fptoui(x, w)
            if o == 'fpext':
                if x.w == 16 and w == 32: return T.h2f(x)
                return T.fpext(x, w)
            if o == 'fptrunc': return T.fptrunc(x, w)
            raise Unsupported('cast ' + o)
        return self.vmap(one, v)

    # ------------------------------------------------------------ calls
    def call(self, f, ins, env, st, depth):
        _, dst, rt, callee, args, nxt = ins
        if callee[0] == '%':
            a = env[callee]
            if isc(a) and a.data in self.fnaddr: name = self.fnaddr[a.data]
            else: raise Unsupported('indirect call')
        else:
            name = callee[1:].strip('"')
        if name.startswith('llvm.'):
            r = self.intrinsic(name, rt, args, env, st)
            if dst is not None: env[dst] = r
            return st
        if name == 'xmv_next' and self.any:
            env[dst] = self.xmv_next(self.val(env, st, args[0][0], args[0][1])); return st
        fn = self.mod.funcs.get(name)
        pretty = fn.pretty if fn else self.mod.decl.get(name, (name,))[0]
        av = [self.val(env, st, t, o) for t, o in args]
        con = self.contracts(pretty) if self.contracts else None
        if con is not None and con.name != self.target:
            r = self.apply_contract(con, fn, rt, args, av, st)
            if r is not NOSUB:
                if dst is not None: env[dst] = r
                return st
        if fn is not None:
            self.inlined.add(pretty)
            st, r = self.call_fn(fn, av, st, depth + 1)
            if dst is not None: env[dst] = r
            return st
        if name in LIBM:
            env[dst] = T.app(LIBM[name], rt[1], *av); return st
        if name == 'memcmp' or name == 'bcmp': raise Unsupported('memcmp')
        if PANIC.search(name) or PANIC.search(pretty):
            self.oblige('panic', st.pc, 'panic: ' + pretty); raise Dead()
        raise Unsupported('external function %s' % pretty)

    def words_in(self, st, kinds, vals, types):
        """read the 32-bit input words of a contracted call"""
        ws = []
        from .api import WORDS
        for k, v, t in zip(kinds, vals, types):
            n = WORDS[k]
            if k in ('F', 'U', 'I'): ws.append(v if v.w == 32 else T.mk_zext(v, 32)); continue
            if k == 'N': ws.append(extract(v, 0, 32)); continue
            if k in ('H', 'B'): ws.append(T.mk_zext(v, 32)); continue
            if k == 'oV':
                if isc(v) and v.data == 0: ws.extend([const(0, 32)] * 4); continue
            if t[0] == 'p':
                for i in range(n):
                    ws.append(self.load(st, ('i', 32), arith('add', v, const(4 * i, 64)), 1))
            else:
                c = concat(self.flat(v)); ws.extend(extract(c, 32 * i, 32) for i in range(n))
        return ws

    def apply_contract(self, con, fn, rt, args, av, st):
        from .api import WORDS
        sret = None
        ts = [t for t, _ in args]
        vals = list(av)
        ret = con.ret
        if ret and rt[0] == 'v':
            sret = vals[0]; vals = vals[1:]; ts = ts[1:]
        if len(vals) != len(con.ins): raise Unsupported('contract arity of ' + con.name)
        ws = self.words_in(st, con.ins, vals, ts)
        for r in con.pre_terms(ws):
            if r is not TRUE and r.id not in self.known and not (self.realmode and r.op in ('feq', 'fle') and r.args[0] is r.args[1]):
                return NOSUB      # precondition not syntactically evident: verify through the body
        self.called[con.name] = self.called.get(con.name, 0) + 1
        outs, facts = con.apply(ws)
        self.subouts.update(t.id for t in outs if t is not None and t.op not in ('var', 'const'))
        self.assumes.extend(T.implies(st.pc, x) for x in facts)
        n = WORDS[ret] if ret else 0
        pos = n
        for k, v in zip(con.ins, vals):
            if k[0] in 'mo':
                nw = WORDS[k]
                if not (isc(v) and v.data == 0):
                    for i in range(nw):
                        self.store(st, ('i', 32), outs[pos + i], arith('add', v, const(4 * i, 64)), 1)
                pos += nw
        if not ret: return None
        if sret is not None:
            for i in range(n): self.store(st, ('i', 32), outs[i], arith('add', sret, const(4 * i, 64)), 1)
            return None
        if rt[0] == 'vec': return self.recast(outs[:n], rt)
        if rt[0] == 'i' or rt[0] == 'f':
            c = concat(outs[:n]); w = ir.bitwidth(rt)
            return extract(c, 0, w)
        return self.unflat(rt, concat(outs[:n]))

    def unflat(self, t, c, pos=0):
        if t[0] in ('i', 'f', 'p'): return extract(c, pos, ir.bitwidth(t))
        if t[0] in ('vec', 'arr'):
            s = ir.sizeof(t[2]) * 8; return [self.unflat(t[2], c, pos + i * s) for i in range(t[1])]
        return [self.unflat(x, c, pos + ir.field_offset(t, i)[0] * 8) for i, x in enumerate(t[1])]

    def intrinsic(self, name, rt, args, env, st):
        def A(i): return self.val(env, st, args[i][0], args[i][1])
        n = name[5:]
        if n.startswith('memcpy') or n.startswith('memmove'):
            d, s, k = A(0), A(1), A(2)
            if not isc(k): raise Unsupported('symbolic memcpy size')
            self.memcpy(st, d, s, k.data); return None
        if n.startswith('memset'):
            d, v, k = A(0), A(1), A(2)
            if not (isc(k) and isc(d) and isc(v)): raise Unsupported('memset')
            if k.data:
                oid, off = self.resolve(st, d, k.data, 1, 'memset')
                for i in range(0, k.data, 4) if k.data % 4 == 0 else []:
                    self.wr(st, oid, off + i, const(v.data * 0x01010101, 32))
                if k.data % 4:
                    for i in range(k.data): self.wr(st, oid, off + i, const(v.data, 8))
            return None
        if n.startswith(('lifetime', 'dbg', 'experimental.noalias', 'prefetch')): return None
        if n.startswith('assume'):
            c = A(0); self.oblige('assume', band(st.pc, bnot(c)), 'compiler assumption'); return None
        if n.startswith('expect'): return A(0)
        v = n.split('.')
        if v[0] in ('sqrt', 'fabs', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'roundeven') and v[0] != 'experimental':
            a = A(0)
            g = {'sqrt': T.fsqrt, 'fabs': T.fabs_, 'floor': lambda x: T.f1('ffloor', x), 'ceil': lambda x: T.f1('fceil', x),
                 'trunc': lambda x: T.f1('ftrunc', x), 'rint': lambda x: T.f1('frne', x), 'nearbyint': lambda x: T.f1('frne', x), 'roundeven': lambda x: T.f1('frne', x)}[v[0]]
            return self.vmap(g, a)
        if v[0] == 'round':
            return self.vmap(lambda x: T.app('roundhalfaway', 32, x), A(0))
        if v[0] in ('sin', 'cos', 'tan', 'exp', 'exp2', 'log', 'log2', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh'):
            return self.vmap(lambda x: T.app(v[0], x.w, x), A(0))
        if v[0] in ('pow', 'atan2'):
            return self.vmap(lambda x, y: T.app(v[0], x.w, x, y), A(0), A(1))
        if v[0] in ('fma', 'fmuladd'):
            return self.vmap(T.fma, A(0), A(1), A(2))
        if v[0] == 'copysign':
            return self.vmap(lambda x, y: bor(T.fabs_(x), band(y, const(1 << (x.w - 1), x.w))), A(0), A(1))
        if v[0] in ('minnum', 'maxnum'):
            lt = (lambda x, y: T.flt(x, y)) if v[0] == 'minnum' else (lambda x, y: T.flt(y, x))
            return self.vmap(lambda x, y: ite(T.funo(x, x), y, ite(T.funo(y, y), x, ite(lt(y, x), y, x))), A(0), A(1))
        if n.startswith('fptosi.sat'):
            w = ir.bitwidth(rt if rt[0] != 'vec' else rt[2])
            return self.vmap(lambda x: fptosi_sat(x, w), A(0))
        if n.startswith('fptoui.sat'):
            w = ir.bitwidth(rt if rt[0] != 'vec' else rt[2])
            return self.vmap(lambda x: fptoui_sat(x, w), A(0))
        if v[0] == 'ctpop':
            x = A(0)
            if isc(x): return const(bin(x.data).count('1'), x.w)
            raise Unsupported('ctpop')
        if v[0] == 'ctlz':
            x = A(0)
            if isc(x): return const(x.w - x.data.bit_length(), x.w)
            r = const(x.w, x.w)
            for i in range(x.w): r = ite(extract(x, i, 1), const(x.w - 1 - i, x.w), r)
            return r
        if v[0] == 'cttz':
            x = A(0); r = const(x.w, x.w)
            for i in reversed(range(x.w)): r = ite(extract(x, i, 1), const(i, x.w), r)
            return r
        if v[0] == 'bswap': raise Unsupported('bswap')
        if v[0] in ('umin', 'umax', 'smin', 'smax'):
            p = 'ult' if v[0][0] == 'u' else 'slt'
            if v[0][1:] == 'min': return self.vmap(lambda x, y: ite(icmp(p, x, y), x, y), A(0), A(1))
            return self.vmap(lambda x, y: ite(icmp(p, x, y), y, x), A(0), A(1))
        if v[0] == 'abs':
            return self.vmap(lambda x: ite(icmp('slt', x, const(0, x.w)), arith('sub', const(0, x.w), x), x), A(0))
        if len(v) > 2 and v[1] == 'with' and v[2] == 'overflow':
            x, y = A(0), A(1); w = x.w; o = v[0][1:]; sg = v[0][0] == 's'
            r = arith(o, x, y)
            if w > 64 and not (isc(x) and isc(y)): raise Unsupported(n)
            ext = T.mk_sext if sg else T.mk_zext
            big = arith(o, ext(x, 2 * w), ext(y, 2 * w))
            ov = bnot(icmp('eq', big, ext(r, 2 * w)))
            return [r, ov]
        if v[0] in ('uadd', 'usub', 'sadd', 'ssub') and v[1] == 'sat':
            x, y = A(0), A(1)
            def sat(x, y):
                w = x.w; sg = v[0][0] == 's'; o = v[0][1:]
                ext = T.mk_sext if sg else T.mk_zext
                big = arith(o, ext(x, w + 2), ext(y, w + 2))
                lo = const(-(1 << (w - 1)) if sg else 0, w + 2); hi = const((1 << (w - 1)) - 1 if sg else (1 << w) - 1, w + 2)
                return extract(ite(icmp('slt', big, lo), lo, ite(icmp('slt', hi, big), hi, big)), 0, w)
            return self.vmap(sat, x, y)
        if v[0] in ('scmp', 'ucmp'):
            x, y = A(0), A(1); p = 'slt' if v[0][0] == 's' else 'ult'; w = ir.bitwidth(rt)
            return ite(icmp(p, x, y), const(-1, w), ite(icmp('eq', x, y), const(0, w), const(1, w)))
        if v[0] == 'vector' and v[1] == 'reduce':
            x = A(0); o = v[2]; r = x[0]
            for y in x[1:]:
                r = {'and': band, 'or': bor, 'xor': T.bxor, 'add': lambda a, b: arith('add', a, b)}[o](r, y)
            return r
        if v[0] == 'is' and v[1] == 'constant': return FALSE
        if n == 'x86.sse.cmp.ps' or n == 'x86.avx.cmp.ps.256':
            k = A(2).data
            return self.vmap(lambda x, y: T.mk_sext(ssecmp(k, x, y), 32), A(0), A(1))
        if n == 'x86.sse.cmp.ss':
            k = A(2).data; a, b = A(0), A(1)
            return [T.mk_sext(ssecmp(k, a[0], b[0]), 32)] + a[1:]
        if n in ('x86.sse.min.ps', 'x86.avx.min.ps.256'): return self.vmap(lambda x, y: ite(T.flt(x, y), x, y), A(0), A(1))
        if n in ('x86.sse.max.ps', 'x86.avx.max.ps.256'): return self.vmap(lambda x, y: ite(T.flt(y, x), x, y), A(0), A(1))
        if n in ('x86.sse.min.ss', 'x86.sse.max.ss'):
            a, b = A(0), A(1)
            return [ite(T.flt(a[0], b[0]), a[0], b[0]) if 'min' in n else ite(T.flt(b[0], a[0]), a[0], b[0])] + a[1:]
        if n in ('x86.sse.comieq.ss', 'x86.sse.ucomieq.ss'): return T.mk_zext(T.feq(A(0)[0], A(1)[0]), 32)
        if n in ('x86.sse.comilt.ss', 'x86.sse.ucomilt.ss'): return T.mk_zext(T.flt(A(0)[0], A(1)[0]), 32)
        if n in ('x86.sse.comile.ss', 'x86.sse.ucomile.ss'): return T.mk_zext(T.fle(A(0)[0], A(1)[0]), 32)
        if n in ('x86.sse.comigt.ss', 'x86.sse.ucomigt.ss'): return T.mk_zext(T.flt(A(1)[0], A(0)[0]), 32)
        if n in ('x86.sse.comige.ss', 'x86.sse.ucomige.ss'): return T.mk_zext(T.fle(A(1)[0], A(0)[0]), 32)
        if n == 'x86.sse41.dpps':
            a, b, k = A(0), A(1), A(2).data
            z = const(0, 32)
            p = [T.fmul(a[i], b[i]) if k >> (4 + i) & 1 else z for i in range(4)]
            s = T.fadd(T.fadd(p[0], p[1]), T.fadd(p[2], p[3]))
            return [s if k >> i & 1 else z for i in range(4)]
        if n == 'x86.sse41.insertps':
            a, b, k = list(A(0)), A(1), A(2).data
            a[(k >> 4) & 3] = b[(k >> 6) & 3]
            for i in range(4):
                if k >> i & 1: a[i] = const(0, 32)
            return a
        if n in ('x86.avx.vpermilvar.ps',):
            a, ix = A(0), A(1)
            def pick(i):
                lo = extract(i, 0, 2)
                if isc(lo): return a[lo.data]
                r = a[3]
                for k in range(3): r = ite(icmp('eq', lo, const(k, 2)), a[k], r)
                return r
            return [pick(i) for i in ix]
        if n in ('x86.sse41.round.ps', 'x86.sse41.round.ss'):
            if n.endswith('ps'): a, k = A(0), A(1).data
            else: a, k = A(1), A(2).data
            o = ['frne', 'ffloor', 'fceil', 'ftrunc'][k & 3] if not k & 4 else 'frne'
            if n.endswith('ps'): return [T.f1(o, x) for x in a]
            return [T.f1(o, a[0])] + A(0)[1:]
        if n == 'x86.sse2.cvttps2dq': return [cvtt(x) for x in A(0)]
        if n == 'x86.sse2.cvtps2dq': return [cvtt(T.f1('frne', x)) for x in A(0)]
        if n == 'x86.sse.cvttss2si': return cvtt(A(0)[0])
        if n == 'x86.sse.cvtss2si': return cvtt(T.f1('frne', A(0)[0]))
        if n == 'x86.sse.rsqrt.ps': return [T.app('rsqrtest', 32, x) for x in A(0)]
        if n == 'x86.sse.rcp.ps': return [T.app('rcpest', 32, x) for x in A(0)]
        if n == 'x86.sse.rsqrt.ss':
            a = A(0); return [T.app('rsqrtest', 32, a[0])] + a[1:]
        if n == 'x86.sse.rcp.ss':
            a = A(0); return [T.app('rcpest', 32, a[0])] + a[1:]
        if n == 'x86.sse.movmsk.ps':
            return T.mk_zext(concat([extract(x, 31, 1) for x in A(0)]), 32)
        if n == 'x86.sse2.pmovmskb.128':
            return T.mk_zext(concat([extract(x, 7, 1) for x in A(0)]), 32)
        if n == 'x86.sse3.hadd.ps':
            a, b = A(0), A(1); return [T.fadd(a[0], a[1]), T.fadd(a[2], a[3]), T.fadd(b[0], b[1]), T.fadd(b[2], b[3])]
        if n == 'x86.sse3.hsub.ps':
            a, b = A(0), A(1); return [T.fsub(a[0], a[1]), T.fsub(a[2], a[3]), T.fsub(b[0], b[1]), T.fsub(b[2], b[3])]
        if n == 'x86.sse3.addsub.ps':
            a, b = A(0), A(1); return [T.fsub(a[0], b[0]), T.fadd(a[1], b[1]), T.fsub(a[2], b[2]), T.fadd(a[3], b[3])]
        if n in ('x86.sse41.blendvps',):
            a, b, m = A(0), A(1), A(2); return [ite(extract(k, 31, 1), y, x) for x, y, k in zip(a, b, m)]
        if n == 'x86.vcvtps2ph.128':
            a, k = A(0), A(1).data
            r = [T.f2h(x, 'rne' if k & 4 else ['rne', 'rtn', 'rtp', 'rtz'][k & 3]) for x in a]
            return r + [const(0, 16)] * 4
        if n in ('x86.sse2.psrli.d', 'x86.sse2.pslli.d', 'x86.sse2.psrai.d'):
            k = A(1); o = {'psrli': 'lshr', 'pslli': 'shl', 'psrai': 'ashr'}[v[2]]
            def sh(x):
                if isc(k):
                    if k.data > 31: return const(0, 32) if o != 'ashr' else arith(o, x, const(31, 32))
                    return arith(o, x, const(k.data, 32))
                big = icmp('ult', const(31, 32), k)
                return ite(big, const(0, 32) if o != 'ashr' else arith(o, x, const(31, 32)), arith(o, x, k))
            return [sh(x) for x in A(0)]
        if n in ('x86.sse2.psrl.d', 'x86.sse2.psll.d', 'x86.sse2.psra.d'):
            kk = A(1); k = concat(kk[:2]); o = {'psrl': 'lshr', 'psll': 'shl', 'psra': 'ashr'}[v[2]]
            big = icmp('ult', const(31, 64), k); k32 = extract(k, 0, 32)
            return [ite(big, const(0, 32) if o != 'ashr' else arith(o, x, const(31, 32)), arith(o, x, k32)) for x in A(0)]
        raise Unsupported('intrinsic ' + name)

def ssecmp(k, x, y):
    k &= 31
    b = k & 15
    # signalling/quiet variants share the result
    if k in (0, 16): return T.feq(x, y)
    if k in (1, 17): return T.flt(x, y)
    if k in (2, 18): return T.fle(x, y)
    if k in (3, 19): return T.funo(x, y)
    if k in (4, 20): return bnot(T.feq(x, y))
    if k in (5, 21): return bnot(T.flt(x, y))
    if k in (6, 22): return bnot(T.fle(x, y))
    if k in (7, 23): return bnot(T.funo(x, y))
    if k in (8, 24): return bor(T.feq(x, y), T.funo(x, y))
    if k in (9, 25): return bnot(T.fle(y, x))
    if k in (10, 26): return bnot(T.flt(y, x))
    if k in (11, 27): return FALSE
    if k in (12, 28): return bor(T.flt(x, y), T.flt(y, x))
    if k in (13, 29): return T.fle(y, x)
    if k in (14, 30): return T.flt(y, x)
    return TRUE

def fcmp(p, x, y):
    if p == 'oeq': return T.feq(x, y)
    if p == 'olt': return T.flt(x, y)
    if p == 'ole': return T.fle(x, y)
    if p == 'ogt': return T.flt(y, x)
    if p == 'oge': return T.fle(y, x)
    if p == 'one': return bor(T.flt(x, y), T.flt(y, x))
    if p == 'ord': return bnot(T.funo(x, y))
    if p == 'uno': return T.funo(x, y)
    if p == 'ueq': return bor(T.feq(x, y), T.funo(x, y))
    if p == 'une': return bnot(T.feq(x, y))
    if p == 'ult': return bnot(T.fle(y, x))
    if p == 'ule': return bnot(T.flt(y, x))
    if p == 'ugt': return bnot(T.fle(x, y))
    if p == 'uge': return bnot(T.flt(x, y))
    if p == 'true': return TRUE
    if p == 'false': return FALSE
    raise Unsupported('fcmp ' + p)

def fl(x): return T.fconst(x)

def cvtt(x):
    r = T.fptosi(x, 32)
    if isc(x): return r if r.op == 'const' else r
    inr = band(T.fle(fl(-2147483648.0), x), T.flt(x, fl(2147483648.0)))
    return ite(inr, r, const(0x80000000, 32))

def fptosi_sat(x, w):
    lo = -(2.0 ** (w - 1)); hi = 2.0 ** (w - 1)
    return ite(T.funo(x, x), const(0, w), ite(T.flt(x, fl(lo)), const(1 << (w - 1), w), ite(T.fle(fl(hi), x), const((1 << (w - 1)) - 1, w), T.fptosi(x, w))))

def fptoui_sat(x, w):
    hi = 2.0 ** w
    return ite(T.funo(x, x), const(0, w), ite(T.flt(x, fl(0.0)), const(0, w), ite(T.fle(fl(hi), x), const((1 << w) - 1, w), T.fptoui(x, w))))
