"""Contract language.

A contract clause attaches to one public function (harness entry name) and says what its output
words are, as terms over the input words, under a precondition.  Modes:

  bits   output words equal the spec words bit for bit
  exact  equal bit for bit, except that any NaN matches any NaN (x86/LLVM leave NaN payloads open)
  exactz as exact, and +0 matches -0
  real   equal in ideal real arithmetic (finite inputs; rounding idealised away)
  rel    clause(args, outs) -> list of (label, condition); conditions are proved in ideal real arithmetic
  approx each output word is within a tolerance of a real function of one input word, for every float of a domain
         (binary32 rounding included); at call sites of ideal-real proofs the result is that function
  dep    each output word is a named function of the given input words (and of nothing else); the name is used at call sites
  relx   as rel, bit-precisely

`None` as an output word leaves it unconstrained.
"""
from . import term as T
from .api import API, WORDS

CLAUSES = {}      # function name -> [Clause]
PROPS = {}        # property id -> [Clause]

class Clause:
    def __init__(self, fname, prop, mode, fn, req=None, gens=None, tol=16, abstol=0.0, reltol=0.0, label='', unit=None, facts=None,
                 sub=None, opts=None, sample_req=None, nsamp=None, oracle=None, panics=True):
        self.fname = fname; self.prop = prop; self.mode = mode; self.fn = fn; self.req = req; self.gens = gens or {}
        self.tol = tol; self.abstol = abstol; self.reltol = reltol; self.label = label or 'value'
        self.unit = unit; self.facts = facts
        self.sub = sub if sub is not None else (mode in ('bits', 'exact', 'exactz', 'real', 'approx', 'dep') and req is None and unit is None and facts is None)
        self.opts = opts or {}; self.sample_req = sample_req; self.nsamp = nsamp; self.oracle = oracle; self.panics = panics
    @property
    def id(self): return '%s/%s' % (self.fname, self.label)

def args_of(name, ws):
    """group input words by parameter kind"""
    out = []; pos = 0
    for k in API[name]['in']:
        n = WORDS[k]; w = ws[pos:pos + n]; pos += n
        out.append(group(k, w))
    return out

SCALAR = ('F', 'U', 'I', 'N', 'H', 'B', 'PF', 'mF', 'mU')
def group(k, w):
    if k in SCALAR: return w[0]
    if k in ('M', 'PM'): return [w[0:4], w[4:8], w[8:12], w[12:16]]
    return list(w)

def outs_of(name, ws):
    out = []; pos = 0
    for k in API[name]['out']:
        n = WORDS[k]; out.append(group(k, ws[pos:pos + n])); pos += n
    return out

def flat(x):
    if x is None or isinstance(x, T.T): return [x]
    r = []
    for y in x: r.extend(flat(y))
    return r

def words(x):
    r = []
    for t in flat(x):
        if t is not None and t.w != 32: t = T.mk_zext(t, 32)
        r.append(t)
    return r

def ens(names, prop, mode, **kw):
    """decorator: fn(*args) -> output words (nested lists allowed)"""
    if isinstance(names, str): names = [names]
    def deco(fn):
        for n in names: add(n, prop, mode, fn, **kw)
        return fn
    return deco

def add(name, prop, mode, fn, **kw):
    if name not in API: raise KeyError('contract for unknown function ' + name)
    c = Clause(name, prop, mode, fn, **kw)
    CLAUSES.setdefault(name, []).append(c)
    PROPS.setdefault(prop, []).append(c)
    return c

def spec_words(c, ws):
    a = args_of(c.fname, ws)
    o = words(c.fn(*a))
    n = API[c.fname]['nout']
    if len(o) != n: raise ValueError('%s: contract gives %d words, function has %d' % (c.fname, len(o), n))
    return o

def req_terms(c, ws):
    if c.req is None: return []
    r = c.req(*args_of(c.fname, ws))
    return r if isinstance(r, (list, tuple)) else [r]

class Sub:
    """a contract as the executor sees it at a call site"""
    def __init__(self, c):
        self.c = c; self.name = c.fname
        a = API[c.fname]
        self.ins = a['in']
        self.ret = a['out'][0] if len(a['out']) > sum(1 for k in a['in'] if k[0] in 'mo') else ''
    def pre_terms(self, ws): return req_terms(self.c, ws)
    def apply(self, ws): return spec_words(self.c, ws), []
