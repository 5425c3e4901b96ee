"""Parser for the textual LLVM IR that rustc emits (--emit=llvm-ir)."""
import re, struct

class IRError(Exception):
    pass

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 | (?P<meta>![a-zA-Z_0-9.]*)
 | (?P<attr>\#\d+)
 | (?P<flt>f0x[0-9A-Fa-f]+|[+-]?(?:inf|nan|qnan|snan)\b(?:\(0x[0-9A-Fa-f]+\))?)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<id>[a-zA-Z_][a-zA-Z_0-9.]*)
 | (?P<p><\{|\}>|\.\.\.|[\[\]{}<>(),=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise IRError('token: %r' % s[i:i+40])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out

# types: ('i',n) ('f',32/64/16) ('p',) ('v',) ('vec',n,t) ('arr',n,t) ('st',[t..],packed) ('label',) ('meta',)
class P:
    """token cursor"""
    def __init__(self, toks):
        self.t = toks; self.i = 0
    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None
    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def eat(self, s):
        if self.peek() == s:
            self.i += 1; return True
        return False
    def expect(self, s):
        v = self.next() if self.i < len(self.t) else None
        if v != s: raise IRError('expected %r got %r in %r' % (s, v, self.t))
    def end(self):
        return self.i >= len(self.t)

NAMED = {}
def ptype(p):
    v = p.next()
    if v[0] == '%':
        if v not in NAMED: raise IRError('type %r' % v)
        return NAMED[v]
    if v == 'void': return ('v',)
    if v == 'ptr':
        if p.peek() == 'addrspace':
            p.next(); p.expect('('); p.next(); p.expect(')')
        return ('p',)
    if v == 'float': return ('f', 32)
    if v == 'double': return ('f', 64)
    if v == 'half': return ('f', 16)
    if v == 'label': return ('label',)
    if v == 'metadata': return ('meta',)
    if v == 'token': return ('meta',)
    if v[0] == 'i' and v[1:].isdigit(): return ('i', int(v[1:]))
    if v == '<':
        n = int(p.next()); x = p.next()
        if x != 'x': raise IRError('vec')
        t = ptype(p); p.expect('>'); return ('vec', n, t)
    if v == '[':
        n = int(p.next()); x = p.next()
        t = ptype(p); p.expect(']'); return ('arr', n, t)
    if v == '{':
        ts = []
        while not p.eat('}'):
            ts.append(ptype(p)); p.eat(',')
        return ('st', tuple(ts), False)
    if v == '<{':
        ts = []
        while not p.eat('}>'):
            ts.append(ptype(p)); p.eat(',')
        return ('st', tuple(ts), True)
    raise IRError('type %r' % v)

def sizeof(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        s = 1
        while s < b: s *= 2
        return s
    if k == 'f': return t[1] // 8
    if k == 'p': return 8
    if k == 'vec':
        return max(1, (t[1] * bitwidth(t[2]) + 7) // 8)
    if k == 'arr': return t[1] * sizeof(t[2])
    if k == 'st':
        off = 0
        for x in t[1]:
            if not t[2]:
                a = alignof(x); off = (off + a - 1) // a * a
            off += sizeof(x)
        if not t[2]:
            a = alignof(t); off = (off + a - 1) // a * a
        return off
    raise IRError('sizeof %r' % (t,))

def alignof(t):
    k = t[0]
    if k in ('i', 'f', 'p'): return min(sizeof(t), 16)
    if k == 'vec': return sizeof(t)
    if k == 'arr': return alignof(t[2])
    if k == 'st': return 1 if t[2] or not t[1] else max(alignof(x) for x in t[1])

def bitwidth(t):
    if t[0] == 'i': return t[1]
    if t[0] == 'f': return t[1]
    if t[0] == 'p': return 64
    raise IRError('bitwidth %r' % (t,))

def field_offset(t, i):
    if t[0] == 'arr': return i * sizeof(t[2]), t[2]
    if t[0] == 'vec': return i * sizeof(t[2]), t[2]
    off = 0
    for j, x in enumerate(t[1]):
        if not t[2]:
            a = alignof(x); off = (off + a - 1) // a * a
        if j == i: return off, x
        off += sizeof(x)
    raise IRError('field')

# operands: ('loc',name) ('glob',name) ('c',int) ('undef',) ('zero',) ('agg',[(type,op)]) ('gep', basety, base op, idxs) ('null',)
def pvalue(p, ty):
    k = p.kind(); v = p.next()
    if k == 'loc': return ('loc', v)
    if k == 'glob': return ('glob', v)
    if v in ('undef', 'poison'): return ('undef',)
    if v == 'zeroinitializer': return ('zero',)
    if v == 'null': return ('c', 0)
    if v == 'true': return ('c', 1)
    if v == 'false': return ('c', 0)
    if v == 'none': return ('undef',)
    if k == 'num':
        if ty[0] == 'f': return ('c', fbits(v, ty[1]))
        if v.startswith('0x'): return ('c', int(v, 16))
        return ('c', int(v))
    if k == 'flt':
        return ('c', fbits(v, ty[1]))
    if k == 'str' and v.startswith('c"'):
        return ('bytes', cstr(v[2:-1]))
    if v == 'splat':
        p.expect('('); t = ptype(p); x = pvalue(p, t); p.expect(')')
        return ('agg', [(t, x)] * ty[1])
    if v in ('<', '[', '{', '<{'):
        close = {'<': '>', '[': ']', '{': '}', '<{': '}>'}[v]
        items = []
        while not p.eat(close):
            t = ptype(p); items.append((t, pvalue(p, t))); p.eat(',')
        return ('agg', items)
    if v == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        p.expect('('); bt = ptype(p); p.expect(',')
        t = ptype(p); base = pvalue(p, t); idx = []
        while p.eat(','):
            t = ptype(p); idx.append((t, pvalue(p, t)))
        p.expect(')')
        return ('gep', bt, base, idx)
    if v in ('inttoptr', 'ptrtoint', 'bitcast'):
        p.expect('('); t = ptype(p); x = pvalue(p, t)
        if p.next() != 'to': raise IRError('cast')
        ptype(p); p.expect(')')
        return x
    raise IRError('value %r (%r)' % (v, k))

def fbits(v, w):
    if v.startswith('f0x'):
        return int(v[3:], 16)
    if v.startswith('0x'):
        x = int(v[2:].lstrip('HKLMR'), 16)
        if v[2] == 'H': return x
        if w == 64: return x
        d = struct.unpack('<d', struct.pack('<Q', x))[0]
        if d != d:
            # NaN: keep payload top bits
            s = x >> 63; m = (x >> 29) & 0x7fffff
            return (s << 31) | 0x7f800000 | m
        return struct.unpack('<I', struct.pack('<f', d))[0]
    mp = re.match(r'([+-]?)(nan|qnan|snan)\((0x[0-9A-Fa-f]+)\)', v)
    if mp:
        pay = int(mp.group(3), 16); sg = mp.group(1) == '-'; q = mp.group(2) != 'snan'
        if w == 32: return (0x80000000 if sg else 0) | 0x7f800000 | (0x400000 if q else 0) | pay
        return ((1 << 63) if sg else 0) | 0x7ff0000000000000 | ((1 << 51) if q else 0) | pay
    s = v.lstrip('+-')
    if s in ('inf', 'nan', 'qnan', 'snan'):
        neg = v.startswith('-')
        if w == 32:
            b = 0x7f800000 if s == 'inf' else 0x7fc00000
            return b | (0x80000000 if neg else 0)
        b = 0x7ff0000000000000 if s == 'inf' else 0x7ff8000000000000
        return b | ((1 << 63) if neg else 0)
    d = float(v)
    if w == 32: return struct.unpack('<I', struct.pack('<f', d))[0]
    return struct.unpack('<Q', struct.pack('<d', d))[0]

def cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

PARAM_ATTR0 = {'noundef','nonnull','noalias','readonly','writeonly','readnone','nocapture','zeroext','signext',
  'inreg','returned','immarg','nofree','swiftself','nest','writable','dead_on_unwind','noext','dead_on_return'}
PARAM_ATTR1 = {'align','dereferenceable','dereferenceable_or_null','sret','byval','captures','range','initializes','nofpclass','elementtype','dead_on_return'}

def skip_attrs(p):
    sret = False
    while True:
        v = p.peek()
        if v is None: return sret
        if v in PARAM_ATTR1 and (v == 'align' or p.peek(1) == '('):
            p.next()
            if v == 'sret': sret = True
            if p.peek() == '(':
                d = 0
                while True:
                    x = p.next()
                    if x in '(' : d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0: break
            else:
                p.next()
        elif v in PARAM_ATTR0:
            p.next()
        elif p.kind() == 'str':
            p.next()
            if p.eat('='): p.next()
        else:
            return sret

class Func:
    __slots__ = ('feats', 'live', 'rpo', 'chain', 'name', 'pretty', 'header', 'lines', 'mod', 'params', 'ret', 'blocks', 'order', 'parsed', 'ipdom', 'reach', 'text')

FLAGS = {'nuw','nsw','exact','disjoint','inbounds','nusw','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','nneg','samesign','volatile','atomic','tail','musttail','notail'}

class Module:
    def __init__(self):
        self.funcs = {}; self.globals = {}; self.by_pretty = {}; self.decl = {}; self.aliases = {}
    def load(self, path):
        with open(path) as f: lines = f.read().split('\n')
        i = 0; last = []; feats = {}; mine = []
        n = len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('; '):
                last.append(L[2:]); i += 1; continue
            if L.startswith('define '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', L)
                f = Func(); f.name = m.group(1).strip('"'); f.mod = self; f.parsed = False
                f.pretty = next((x for x in last if not x.startswith('Function Attrs')), f.name)
                f.header = L; mine.append(f)
                j = i + 1
                while lines[j] != '}': j += 1
                f.lines = lines[i+1:j]
                self.funcs.setdefault(f.name, f)
                self.by_pretty.setdefault(f.pretty, []).append(f)
                i = j + 1; last = []; continue
            if L.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', L)
                pretty = next((x for x in last if not x.startswith('Function Attrs')), m.group(1))
                self.decl[m.group(1).strip('"')] = (pretty, L)
            elif L.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = ', L); q = re.search(r'"target-features"="([^"]*)"', L)
                feats[m.group(1)] = frozenset(x[1:] for x in q.group(1).split(',') if x[:1] == '+') if q else frozenset()
            elif L.startswith('%') and ' = type ' in L:
                a, b = L.split(' = type ', 1)
                NAMED[a.strip()] = ptype(P(tokenize(b)))
            elif L.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', L)
                g = m.group(1).strip('"'); old = self.globals.get(g)
                if old is None or old.startswith('external '): self.globals[g] = m.group(2)
            last = []
            i += 1
        for f in mine:
            m = re.search(r' (#\d+)(?: |$)', f.header[f.header.rindex(')'):])
            f.feats = feats.get(m.group(1), frozenset()) if m else frozenset()

    def parse(self, f):
        if f.parsed: return f
        p = P(tokenize(f.header[len('define '):].split(' personality ')[0].split(' !')[0].rstrip('{ ')))
        # linkage etc
        while True:
            sv = p.i
            v = p.peek()
            if v in ('internal','private','external','linkonce_odr','weak','dso_local','hidden','unnamed_addr','fastcc','coldcc','available_externally','protected','weak_odr','linkonce'):
                p.next(); continue
            if v in PARAM_ATTR0 or v in PARAM_ATTR1:
                skip_attrs(p); continue
            break
        f.ret = ptype(p)
        p.next()  # name
        p.expect('(')
        f.params = []
        while not p.eat(')'):
            if p.eat('...'): continue
            t = ptype(p); sret = skip_attrs(p)
            nm = p.next() if p.kind() == 'loc' else None
            f.params.append((t, nm, sret)); p.eat(',')
        f.blocks = {}; f.order = []
        cur = None
        pend = None
        for L in f.lines:
            s = L.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', L)
            if m and not L.startswith(' '):
                cur = '%' + m.group(1); f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                cur = '%entry'; f.blocks[cur] = []; f.order.append(cur)
            if pend is not None:
                pend += ' ' + s
                if s.endswith(']') or s.startswith('to label'):
                    f.blocks[cur].append(parse_instr(pend)); pend = None
                continue
            if (s.startswith('switch ') and s.endswith('[')):
                pend = s; continue
            if ' invoke ' in ' ' + s and ' to label ' not in s:
                pend = s + ' '; 
                continue
            if s.startswith('to label') or s.startswith('cleanup') or s.startswith('catch') or s.startswith('filter'):
                continue
            try: f.blocks[cur].append(parse_instr(s))
            except IRError as e: f.blocks[cur].append(('unsupported', None, s, str(e)))
        f.parsed = True
        self._fix_invokes(f)
        f.ipdom, f.reach = postdom(f)
        flow(f)
        return f
    def _fix_invokes(self, f):
        pass

def strip_meta(s):
    # drop trailing ", !xyz !n" metadata
    i = s.find(', !')
    if i >= 0 and 'metadata' not in s[:i]: s = s[:i]
    return s

def parse_instr(s):
    s = strip_meta(s)
    if ' landingpad ' in s or s.startswith('cleanup'): return ('unreachable', None)
    p = P(tokenize(s))
    dst = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        dst = p.next(); p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'): op = p.next()
    def flags():
        fl = set()
        while p.peek() in FLAGS: fl.add(p.next())
        return fl
    def typed():
        t = ptype(p); skip_attrs(p); return t, pvalue(p, t)
    if op == 'alloca':
        t = ptype(p); n = None
        al = 1
        while p.eat(','):
            if p.eat('align'): al = int(p.next())
            elif p.peek() == 'addrspace': p.next(); p.expect('('); p.next(); p.expect(')')
            else: n = typed()
        return ('alloca', dst, t, n, al)
    if op == 'load':
        flags(); t = ptype(p); p.expect(','); pt, v = typed()
        al = 1
        while p.eat(','):
            if p.eat('align'): al = int(p.next())
            else: break
        return ('load', dst, t, v, al)
    if op == 'store':
        flags(); t, v = typed(); p.expect(','); pt, a = typed()
        al = 1
        while p.eat(','):
            if p.eat('align'): al = int(p.next())
            else: break
        return ('store', None, t, v, a, al)
    if op == 'getelementptr':
        flags(); bt = ptype(p); p.expect(','); pt, base = typed(); idx = []
        while p.eat(','): idx.append(typed())
        return ('gep', dst, bt, base, idx)
    if op in ('fadd','fsub','fmul','fdiv','frem','add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'):
        fl = flags(); t = ptype(p); a = pvalue(p, t); p.expect(','); b = pvalue(p, t)
        return ('bin', dst, op, t, a, b, fl)
    if op == 'fneg':
        flags(); t, a = typed(); return ('fneg', dst, t, a)
    if op in ('icmp', 'fcmp'):
        flags(); pred = p.next(); t = ptype(p); a = pvalue(p, t); p.expect(','); b = pvalue(p, t)
        return (op, dst, pred, t, a, b)
    if op == 'select':
        flags(); ct, c = typed(); p.expect(','); t, a = typed(); p.expect(','); t, b = typed()
        return ('select', dst, ct, c, t, a, b)
    if op == 'phi':
        flags(); t = ptype(p); inc = []
        while True:
            p.expect('['); v = pvalue(p, t); p.expect(','); b = p.next(); p.expect(']')
            inc.append((v, b))
            if not p.eat(','): break
        return ('phi', dst, t, inc)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return ('br', None, None, p.next())
        t, c = typed(); p.expect(','); p.next(); a = p.next(); p.expect(','); p.next(); b = p.next()
        return ('br', None, c, a, b)
    if op == 'switch':
        t, v = typed(); p.expect(','); p.next(); d = p.next(); p.expect('[')
        cs = []
        while not p.eat(']'):
            ct = ptype(p); cv = pvalue(p, ct); p.expect(','); p.next(); cs.append((cv[1], p.next()))
        return ('switch', None, t, v, d, cs)
    if op in ('call', 'invoke'):
        flags()
        while p.peek() in ('fastcc','coldcc','ccc'): p.next()
        while True:
            i0 = p.i
            skip_attrs(p)
            flags()
            if p.i == i0: break
        rt = ptype(p)
        if p.peek() == '(':  # function type
            d = 0
            while True:
                x = p.next()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        k = p.kind(); callee = p.next()
        if callee == 'asm':
            return ('asm', dst, s)
        p.expect('('); args = []
        while not p.eat(')'):
            t = ptype(p)
            if t[0] == 'meta':
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    if x in '([{' : d += 1
                    elif x in ')]}': d -= 1
                args.append((t, ('undef',))); p.eat(','); continue
            skip_attrs(p); args.append((t, pvalue(p, t))); p.eat(',')
        nxt = None
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.next(); nxt = p.next()
        return ('call', dst, rt, callee, args, nxt)
    if op == 'ret':
        if p.peek() == 'void': return ('ret', None, None, None)
        t, v = typed(); return ('ret', None, t, v)
    if op == 'unreachable': return ('unreachable', None)
    if op == 'extractelement':
        t, v = typed(); p.expect(','); it, i = typed(); return ('ee', dst, t, v, i)
    if op == 'insertelement':
        t, v = typed(); p.expect(','); et, e = typed(); p.expect(','); it, i = typed(); return ('ie', dst, t, v, e, i)
    if op == 'shufflevector':
        t, a = typed(); p.expect(','); t2, b = typed(); p.expect(','); mt, m = typed()
        return ('sv', dst, t, a, b, mt, m)
    if op == 'extractvalue':
        t, v = typed(); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return ('ev', dst, t, v, idx)
    if op == 'insertvalue':
        t, v = typed(); p.expect(','); et, e = typed(); idx = []
        while p.eat(','): idx.append(int(p.next()))
        return ('iv', dst, t, v, et, e, idx)
    if op in ('trunc','zext','sext','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext','ptrtoint','inttoptr','bitcast','addrspacecast','ptrtoaddr'):
        flags(); t, v = typed()
        if p.next() != 'to': raise IRError(s)
        t2 = ptype(p); return ('cast', dst, op, t, v, t2)
    if op == 'freeze':
        t, v = typed(); return ('freeze', dst, t, v)
    if op in ('landingpad', 'cleanuppad', 'catchpad', 'catchswitch'): return ('unreachable', None)
    if op in ('resume', 'cleanupret'): return ('unreachable', None)
    if op == 'fence': return ('nop', None)
    return ('unsupported', dst, s)

def succs(ins):
    if ins[0] == 'br':
        return [ins[3]] if ins[2] is None else [ins[3], ins[4]]
    if ins[0] == 'switch': return [ins[4]] + [b for _, b in ins[5]]
    if ins[0] == 'call' and ins[5]: return [ins[5]]
    return []

def postdom(f):
    """immediate post-dominators over blocks that can reach a return"""
    S = {b: succs(f.blocks[b][-1]) for b in f.order}
    rets = [b for b in f.order if f.blocks[b][-1][0] == 'ret']
    preds = {b: [] for b in f.order}
    for b in f.order:
        for s in S[b]: preds.setdefault(s, []).append(b)
    reach = set(rets); st = list(rets)
    while st:
        b = st.pop()
        for q in preds.get(b, ()):
            if q not in reach: reach.add(q); st.append(q)
    EXIT = '$exit'
    # reverse postorder on reverse graph
    succ = {b: ([s for s in S[b] if s in reach] or [EXIT]) if b not in rets else [EXIT] for b in reach}
    order = []; seen = {EXIT}
    rp = {EXIT: list(rets)}
    for b in reach:
        for s in succ[b]: rp.setdefault(s, []).append(b) if s != EXIT else None
    st = [(EXIT, iter(rp.get(EXIT, [])))]
    while st:
        b, it = st[-1]
        for q in it:
            if q not in seen:
                seen.add(q); st.append((q, iter(rp.get(q, [])))); break
        else:
            order.append(b); st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    idom = {EXIT: EXIT}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for s in succ[b]:
                if s in idom:
                    if new is None: new = s
                    else:
                        x, y = new, s
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new; ch = True
    return idom, reach


def locs(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'loc': out.add(x[1]); return
        for y in x: locs(y, out)
    elif isinstance(x, list):
        for y in x: locs(y, out)

def flow(f):
    """reverse postorder, natural-loop chains (outermost first) and live-in sets of the blocks that can return"""
    S = {b: [s for s in dict.fromkeys(succs(f.blocks[b][-1])) if s in f.reach] for b in f.order if b in f.reach}
    entry = f.order[0]
    f.rpo = {}; f.chain = {}; f.live = {}
    if entry not in S: return
    po = []; seen = {entry}; st = [(entry, iter(S[entry]))]
    while st:
        b, it = st[-1]
        for q in it:
            if q not in seen: seen.add(q); st.append((q, iter(S[q]))); break
        else: po.append(b); st.pop()
    rpo = po[::-1]; num = {b: i for i, b in enumerate(rpo)}
    f.rpo = num
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in S[b]: preds[s].append(b)
    idom = {entry: entry}; ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        x, y = new, p
                        while x != y:
                            while num[x] > num[y]: x = idom[x]
                            while num[y] > num[x]: y = idom[y]
                        new = x
            if idom.get(b) != new: idom[b] = new; ch = True
    def dominates(a, b):
        while num[b] > num[a]: b = idom[b]
        return a == b
    loops = {}
    for b in rpo:
        for h in S[b]:
            if num[h] <= num[b]:
                if not dominates(h, b): raise IRError('irreducible control flow')
                body = loops.setdefault(h, {h}); st = [b]
                while st:
                    x = st.pop()
                    if x not in body: body.add(x); st += preds[x]
    for b in rpo: f.chain[b] = tuple(sorted((h for h, body in loops.items() if b in body), key=lambda h: (-len(loops[h]), num[h])))
    # liveness
    use = {}; defs = {}; phid = {}; phiu = {}
    for b in rpo:
        u = set(); d = set(); pd = set()
        for ins in f.blocks[b]:
            if ins[0] == 'phi':
                pd.add(ins[1])
                for v, pb in ins[3]:
                    q = set(); locs(v, q); phiu.setdefault((pb, b), set()).update(q)
                continue
            q = set(); locs(ins, q)
            if ins[0] == 'call' and isinstance(ins[3], str) and ins[3][:1] == '%': q.add(ins[3])
            u |= q - d
            if ins[1] is not None: d.add(ins[1])
        use[b], defs[b], phid[b] = u, d, pd
    live = {b: set(use[b]) for b in rpo}; ch = True
    while ch:
        ch = False
        for b in reversed(rpo):
            o = set()
            for s in S[b]: o |= (live[s] - phid[s]) | phiu.get((b, s), set())
            n = use[b] | (o - defs[b])
            if n != live[b]: live[b] = n; ch = True
    f.live = live
