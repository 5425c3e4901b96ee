"""Per-function verification: symbolic execution of every configuration against the contracts,
discharge of the obligations, translation validation, failing-input search."""
import re, sys, time, os, hashlib, traceback
import numpy as np
from . import ir, term as T, api, build, smt, real, evalnp, oracle, sample, spec, accur, lin
from . import exec as X
from .native import Native
from .api import API, WORDS

R_FN = re.compile(r'^directx_math::(?:\w+::)?(XM\w+)$')
R_COL = re.compile(r'^<directx_math::collision::(Bounding\w+)>::(\w+)$')
R_TRI = re.compile(r'^directx_math::collision::triangle_tests::(\w+)$')

def api_name(pretty):
    m = R_FN.match(pretty)
    if m and m.group(1) in API: return m.group(1)
    m = R_COL.match(pretty)
    if m and m.group(1) + '_' + m.group(2) in API: return m.group(1) + '_' + m.group(2)
    m = R_TRI.match(pretty)
    if m and 'triangle_' + m.group(1) in API: return 'triangle_' + m.group(1)
    return None

class World:
    def __init__(self, builds):
        self.builds = builds; self.mods = {}; self.nat = {}
        for c, b in builds.items():
            m = ir.Module()
            for l in b['ll']: m.load(l)
            self.mods[c] = m
        self.subs = {}
        for n, cs in spec.CLAUSES.items():
            for c in cs:
                if c.sub and n not in self.subs: self.subs[n] = spec.Sub(c)
    def native(self, c):
        if c not in self.nat: self.nat[c] = Native(self.builds[c]['bin'])
        return self.nat[c]
    def lookup(self, level):
        def f(pretty):
            n = api_name(pretty)
            if n is None: return None
            s = self.subs.get(n)
            if s is None: return None
            if level == 'acc': return s if s.c.mode == 'approx' and ('Sin' in n or 'Cos' in n) and n[-3:] != 'Est' and n[-1] != 'H' and 'AS' not in n and 'AC' not in n else None
            if level == 'exact' and s.c.mode in ('real', 'exactz', 'approx', 'dep'): return None
            return s
        return f

class Run:
    pass

def invars(name): return [T.var('i%d' % k) for k in range(API[name]['nin'])]

FEAS = {'n': 0}
def feasible_cb(reqs):
    def f(cond, assumes):
        FEAS['n'] += 1
        r, _ = smt.check(cond, list(assumes) + list(reqs), timeout=3.0, use_cvc5=False)
        return r != 'unsat'
    return f

def real_feasible_cb(c, ins, reqs):
    memo = {}
    def f(cond, assumes):
        r = memo.get(cond.id)
        if r is None:
            try: r = real.prove_one(cond, T.FALSE, engine(c, ins, 3.0), 1.0, reqs)['status'] != 'proved'
            except RecursionError: r = True
            memo[cond.id] = r
        return r
    return f

def execute(world, cfg, name, level, reqs=(), ins=None, c=None, empty=False):
    """level: 'raw' | 'exact' | 'real'"""
    mod = world.mods[cfg]; a = API[name]
    ex = X.Exec(mod, None if level == 'raw' else world.lookup(level), target=name, feasible=feasible_cb(reqs))
    if c is not None and c.opts.get('prune') and level != 'exact': ex.feasible = real_feasible_cb(c, ins or invars(name), reqs); ex.prune_all = True
    ex.cpu = build.cpu(cfg)
    ex.known = {t.id for t in reqs}; ex.realmode = level == 'real'
    st = X.State()
    pi, oi = ex.new(st, 4 * max(1, a['nin']), 4, 'input'); po, oo = ex.new(st, 4 * max(1, a['nout']), 4, 'output')
    ins = ins or invars(name)
    for k, v in enumerate(ins): ex.wr(st, oi, 4 * k, v)
    st.mem[oi].ro = True
    if name.endswith('_any'): ex.any = True; ex.more = False if empty else None; ex.p0 = ins[a['nin'] - 97:a['nin'] - 94]
    f = mod.funcs.get('h_' + name)
    if f is None: raise X.Unsupported('no harness entry ' + name)
    r = Run()
    try:
        st, _ = ex.call_fn(f, [pi, po], st)
        r.outs = [ex.rd(st, oo, 4 * k, 32) for k in range(a['nout'])]; r.dead = False
    except X.Dead:
        r.outs = [T.const(0)] * a['nout']; r.dead = True
        ex.oblige('panic', T.TRUE, 'function never returns')
    r.oblig = ex.oblig; r.assumes = ex.assumes; r.called = ex.called; r.inlined = ex.inlined; r.subouts = ex.subouts; r.ins = ins; r.steps = ex.steps
    r.loops = ex.loops; r.counters = ex.counters; r.cfacts = ex.counter_facts()
    r.key = (tuple(t.id for t in r.outs), tuple(l.key() for l in ex.loops), tuple((k, c.id) for k, c, _ in r.oblig), tuple(t.id for t in r.assumes))
    return r

# ---------------------------------------------------------------------------- proving
class Res(dict):
    pass

def isnan(t): return T.mk('funo', 1, (t, t)) if t.op != 'const' else (T.TRUE if T.is_nan_bits(t.data) else T.FALSE)

def bit_goal(o, s, mode):
    if o is s: return T.FALSE
    e = T.eq(o, s)
    if mode != 'bits': e = T.bor(e, T.band(isnan(o), isnan(s)))
    if mode == 'exactz': e = T.bor(e, T.band(T.eq(T.fabs_(o), T.const(0)), T.eq(T.fabs_(s), T.const(0))))
    return T.bnot(e)

CANON = {}
def canon(cond, assumes):
    """the obligation with its variables renamed in order of occurrence: lanes of a vector often give the same one"""
    ts = [cond] + sorted(assumes, key=lambda t: t.id)
    m = {}; back = {}
    for t in T.subterms(ts):
        if t.op == 'var':
            v = T.var('c%d_%d' % (len(m), t.w), t.w); m[t.id] = v; back[v.data] = t.data
    ts = T.subst(ts, m)
    return ts, back

def prove_bits(cond, assumes, tmo):
    if cond is T.FALSE: return {'status': 'proved', 'how': 'syntactic'}
    # assumptions about variables the goal does not mention are irrelevant to it
    gv = {t.data for t in T.subterms([cond]) if t.op == 'var'}
    rel = [a for a in assumes if any(t.op == 'var' and t.data in gv for t in T.subterms([a]))]
    rel = assumes if len(rel) == len(assumes) else closure(gv, assumes)
    ts, back = canon(cond, rel)
    key = (ts[0].id, tuple(sorted(t.id for t in ts[1:])))
    r = CANON.get(key)
    if r is None or r['status'] == 'unknown':
        r = prove_bits0(ts[0], ts[1:], tmo); CANON[key] = r
        r = dict(r)
    else:
        r = dict(r, t=0.0)
        if r['status'] == 'proved': r['how'] = r['how'] + ' (same obligation up to renaming)'
    if r.get('env') is not None:
        r['env'] = {back.get(k, k): v for k, v in r['env'].items()}
        if r['status'] == 'refuted' and len(rel) != len(assumes): r = dict(r)
    return r

def relevant(ts, reqs):
    if not reqs: return reqs
    return closure({t.data for t in T.subterms(ts) if t.op == 'var'}, reqs)

def closure(gv, assumes):
    gv = set(gv); todo = [(a, {t.data for t in T.subterms([a]) if t.op == 'var'}) for a in assumes]; out = []
    ch = True
    while ch:
        ch = False; rest = []
        for a, vs in todo:
            if vs & gv or not vs: gv |= vs; out.append(a); ch = True
            else: rest.append((a, vs))
        todo = rest
    return out

HEAVY = ('fadd', 'fsub', 'fmul', 'fdiv', 'fma', 'fsqrt', 'app')
def prove_bits0(cond, assumes, tmo):
    t0 = time.time()
    # floating-point operations whose values do not matter: havoc them first (sound: fewer facts)
    hv = {t.id: T.var('h%d' % t.id, t.w) for t in T.subterms([cond] + list(assumes)) if t.op in HEAVY}
    if len(hv) >= 3:
        sb = T.subst([cond] + list(assumes), hv)
        if sb[0] is T.FALSE: return {'status': 'proved', 'how': 'syntactic', 't': time.time() - t0}
        st, _ = smt.check(sb[0], sb[1:], min(2.0, tmo), use_cvc5=False)
        if st == 'unsat': return {'status': 'proved', 'how': 'z3 QF_BVFP', 't': time.time() - t0}
        if smt.by_classes(cond, assumes, min(5.0, tmo)): return {'status': 'proved', 'how': 'z3 QF_BVFP (classes of intermediate results)', 't': time.time() - t0}
    st, env = smt.check(cond, assumes, tmo)
    d = time.time() - t0
    if st == 'unsat': return {'status': 'proved', 'how': 'z3 QF_BVFP', 't': d}
    if st == 'sat':
        ab = any(t.op == 'app' for t in T.subterms([cond] + list(assumes)))
        return {'status': 'unknown' if ab else 'refuted', 'env': env, 'why': 'counter-model of the bit-precise obligation' + (' (modulo uninterpreted functions)' if ab else ''), 't': d}
    return {'status': 'unknown', 'why': 'bit-precise solver: no answer in %gs' % tmo, 't': d}

def prove_goal(c, cond, assumes, tmo):
    cs = c.opts.get('cases')
    if cs is not None and cond is not T.FALSE:
        # one proof per value of a finite-range input word
        k, rng = cs; t = 0.0; how = set()
        for v in rng:
            m = {T.var('i%d' % k).id: T.const(v)}
            sb = T.subst([cond] + list(assumes), m)
            if any(a is T.FALSE for a in sb[1:]): continue
            r = prove_bits(sb[0], [a for a in sb[1:] if a is not T.TRUE], tmo); t += r.get('t', 0.0)
            if r['status'] != 'proved':
                r['t'] = t
                if r.get('env') is not None: r['env']['i%d' % k] = v & 0xffffffff
                return r
            how.add(r['how'].split(' (')[0])
        return {'status': 'proved', 'how': 'z3 QF_BVFP' if 'z3 QF_BVFP' in how else 'syntactic', 't': t}
    dom = c.opts.get('domain')
    if cond is T.FALSE or dom is None: return prove_bits(cond, assumes, tmo)
    # finite domain of the inputs: the obligation is decided by evaluating it everywhere
    grids = np.meshgrid(*[np.array(list(d), dtype=np.int64).astype(np.uint32) for d in dom], indexing='ij')
    n = grids[0].size
    env = {'i%d' % k: np.ascontiguousarray(g.reshape(-1)) for k, g in enumerate(grids)}
    t0 = time.time()
    vs = evalnp.evaluate([cond] + list(assumes), env, n)
    bad = vs[0] != 0
    for a in vs[1:]: bad &= a != 0
    if not bad.any(): return {'status': 'proved', 'how': 'exhaustive evaluation of the obligation over the finite input domain', 't': time.time() - t0}
    k = int(np.argmax(bad)); return {'status': 'refuted', 'why': 'finite-domain counterexample', 'env': {q: int(v[k]) for q, v in env.items()}, 't': time.time() - t0}

def engine(c, ins, tmo):
    eng = real.Engine(budget_s=tmo, split_limit=c.opts.get('splits', 3000)); eng.prune = c.opts.get('prune', False)
    a = spec.args_of(c.fname, ins)
    ctx = real.Ctx(); ctx.used = set()
    if c.unit or 'param' in c.opts:
        for vec in (c.opts['param']()[1] if 'param' in c.opts else c.unit(*a)):
            ps = [eng.ev(t, ctx)[1][0] for t in vec]
            (m, _), = ps[-1].items()
            rep = real.ONE
            for p in ps[:-1]: rep = real.psub(rep, eng.pmul(p, p))
            eng.given.append((((m[0][0], 2),), rep))
    if c.facts:
        for t, s in c.facts(*a):
            r = eng.ev(t, ctx)[1]
            eng.add_fact(r[0], {'>0': real.POS, '>=0': real.POS | real.ZERO, '!=0': real.POS | real.NEG, '<0': real.NEG, '<=0': real.NEG | real.ZERO}[s])
    return eng

def atan2_def(y, x):
    z = T.const(0); pi = T.ite(T.flt(y, z), T.fconst(-np.pi), T.fconst(np.pi)); h = T.ite(T.flt(y, z), T.fconst(-np.pi / 2), T.fconst(np.pi / 2))
    a = T.app('atan', 32, T.fdiv(y, x))
    return T.ite(T.feq(y, z), T.ite(T.flt(x, z), T.fconst(np.pi), z), T.ite(T.feq(x, z), h, T.ite(T.flt(x, z), T.fadd(a, pi), a)))
def neg1(outs):
    neg = T.fconst(-1.0); memo = {}
    for t in T.subterms(outs):
        na = [memo[a.id] for a in t.args]
        if t.op == 'fmul' and neg in na: memo[t.id] = T.fneg(na[1] if na[0] is neg else na[0])
        else: memo[t.id] = t if all(x is y for x, y in zip(na, t.args)) else T.rebuild(t, na)
    return [memo[o.id] for o in outs]
def expand(outs, c=None):
    """real-level definition of the two-argument arc tangent; a product with -1 is a negation"""
    outs = neg1(outs)
    m = {t.id: atan2_def(*t.args) for t in T.subterms(outs) if t.op == 'app' and t.data == 'atan2'}
    if c is not None and c.opts.get('ideal_rcp'):
        m.update({t.id: T.fdiv(T.fconst(1.0), t.args[0]) for t in T.subterms(outs) if t.op == 'app' and t.data == 'rcpest'})
    return T.subst(outs, m) if m else outs

def prove_real(run, o, s, eng, nl, reqs):
    """code = spec; first with subterms common to both generalised to fresh variables"""
    so = {t.id: t for t in T.subterms([o])}
    com = [t for t in T.subterms([s]) if t.id in so and t.op not in ('var', 'const') and t.w == 32]
    if com:
        maximal = {t.id for t in com}; sub = {t.id for t in com if t.id in run.subouts}
        tried = set()
        for ids in (maximal, sub):
            if not ids or frozenset(ids) in tried: continue
            tried.add(frozenset(ids))
            m = {i: T.var('g%d' % i) for i in ids}
            o2, s2, *rq = T.subst([o, s] + list(reqs), m)
            if o2 is s2: return {'status': 'proved', 'how': 'syntactic'}
            e2 = real.Engine(budget_s=min(4.0, eng.budget / 3), split_limit=400); e2.given = eng.given; e2.facts = eng.facts; e2.atoms = eng.atoms; e2.akey = eng.akey; e2.rules = eng.rules
            try: r = real.prove_one(o2, s2, e2, 2.0, rq)
            except RecursionError: continue
            if r['status'] == 'proved':
                eng.nl += e2.nl; return r
        eng.t0 = time.time()
    return real.prove_one(o, s, eng, nl, reqs)

def tmo_of(c, tier): return c.opts.get('tmo', 20.0) * (3 if tier == 'thorough' else 1)

def prove_clause(c, run, reqs, tier):
    """-> list of (obligation label, result)"""
    ins = run.ins; out = []
    if run.dead: return [('returns', {'status': 'refuted', 'why': 'never returns', 'env': {}})]
    tmo = tmo_of(c, tier)
    kinds = [k for k in API[c.fname]['out'] for _ in range(WORDS[k])]
    if c.mode in ('bits', 'exact', 'exactz'):
        sw = spec.spec_words(c, ins)
        for k, (o, s) in enumerate(zip(run.outs, sw)):
            if s is None: continue
            if c.opts.get('libm') and o.op == 'app' and o.data == c.opts['libm'] and all(x.op in ('var', 'const') for x in o.args):
                out.append(('out%d' % k, {'status': 'proved', 'how': 'assumed contract of libm ' + o.data})); continue
            out.append(('out%d' % k, prove_goal(c, bit_goal(o, s, c.mode), reqs + run.assumes, tmo)))
    elif c.mode == 'real':
        sw = spec.spec_words(c, ins)
        eng = engine(c, ins, tmo); outs = expand(run.outs, c)
        if 'points' in c.opts:
            outs, sw, facts, reqs = sweep(c, outs, sw, ins, reqs, tmo)
        for k, (o, s) in enumerate(zip(outs, sw)):
            if s is None: continue
            eng.t0 = time.time(); t0 = time.time()
            if 'points' in c.opts:
                r = prove_sub(c, o, s, ins, reqs, facts, tmo); r['t'] = time.time() - t0
                if r['status'] == 'proved': r['how'] = 'cut-point equivalence over ideal reals (%s)' % r.get('how', '')
                else: r['status'] = 'unknown'; r.pop('env', None); r['why'] = '%s; %s' % (r.get('why'), getattr(c, 'sweep_log', None))
                out.append(('out%d' % k, r)); continue
            if o is s: r = {'status': 'proved', 'how': 'syntactic'}
            elif c.opts.get('lin'):
                r = prove_lin(c, o, s, ins, reqs, tmo)
                if r['status'] != 'proved' and c.opts['lin'] != 'only':
                    try: r2 = prove_real(run, o, s, eng, min(10.0, tmo), relevant([o, s], reqs))
                    except RecursionError: r2 = r
                    if r2['status'] != 'unknown': r = r2
            else:
                try: r = prove_real(run, o, s, eng, min(10.0, tmo), relevant([o, s], reqs))
                except RecursionError: r = {'status': 'unknown', 'why': 'recursion depth'}
            r['t'] = time.time() - t0
            if r['status'] == 'proved' and not r.get('how', '').startswith(('syntactic', 'ideal-real')): r['how'] = 'ideal-real case split + polynomial identity' + (' + z3 nlsat' if eng.nl else '')
            out.append(('out%d' % k, r))
    elif c.mode == 'dep':
        # the contract names the result f_k(arguments): obligation = nothing else flows into output k
        eng = engine(c, ins, tmo)
        for k, (o, s) in enumerate(zip(run.outs, spec.spec_words(c, ins))):
            if s is None: continue
            keep = {t.data for t in T.subterms([s]) if t.op == 'var'}
            m = {t.id: T.var('other_' + t.data, t.w) for t in T.subterms([o]) if t.op == 'var' and t.data not in keep}
            if not m: r = {'status': 'proved', 'how': 'syntactic'}
            else:
                eng.t0 = time.time()
                r = real.prove_one(o, T.subst([o], m)[0], eng, min(10.0, tmo), reqs)
                if r['status'] == 'proved': r['how'] = 'ideal-real case split + polynomial identity'
            out.append(('out%d' % k, r))
    elif c.mode == 'approx':
        for k, (o, s) in enumerate(zip(run.outs, spec.spec_words(c, ins))):
            if s is None: continue
            out.append(('out%d' % k, prove_approx(c, o, s, tmo)))
    elif c.mode == 'safe':       # the panic/memory/target-feature obligations are discharged by prove_panics
        bad = [k for k, o in enumerate(run.outs) if any(t.op == 'var' and not re.fullmatch(r'i\d+', t.data) for t in T.subterms([o]))]
        out.append(('results-initialised', {'status': 'unknown', 'why': 'output words %s depend on uninitialised memory' % bad} if bad and not c.opts.get('panic_ok') else {'status': 'proved', 'how': 'syntactic'}))
    elif c.mode in ('rel', 'relx'):
        a = spec.args_of(c.fname, ins); outs = run.outs
        if 'gen_out' in c.opts:      # these output words generalised to arbitrary values, in every output they occur in
            outs = T.subst(outs, {outs[k].id: T.var('go%d' % k) for k in c.opts['gen_out'] if outs[k].op != 'const'})
        os_ = spec.outs_of(c.fname, outs)
        conds = c.fn(a, os_)
        eng = engine(c, ins, tmo) if c.mode == 'rel' else None
        for lab, cond in conds:
            t0 = time.time()
            if cond is T.TRUE: r = {'status': 'proved', 'how': 'syntactic'}
            elif c.mode == 'relx': r = prove_goal(c, T.bnot(cond), reqs + run.assumes, tmo)
            else:
                eng.t0 = t0
                if c.opts.get('lin'):
                    r = prove_lin(c, cond, T.TRUE, ins, reqs, tmo)
                    if r['status'] == 'proved': r['t'] = time.time() - t0; out.append((lab, r)); continue
                r = real.prove_one(cond, T.TRUE, eng, min(10.0, tmo), relevant([cond], reqs))
                if r['status'] == 'proved': r['how'] = 'ideal-real case split + z3 nlsat'
            r['t'] = time.time() - t0
            out.append((lab, r))
    return out

def evnum(orc, roots):
    """double-precision values of every term that has one"""
    old = np.seterr(all='ignore')
    try:
        for t in T.subterms(roots):
            if t.id in orc.val: continue
            a = [orc.val[x.id] for x in t.args]
            try: orc.val[t.id] = None if any(x is None for x in a) else orc.ev1(t, a)
            except NotImplementedError: orc.val[t.id] = None
    finally: np.seterr(**old)
    return orc.val

def sweep(c, outs, sw, ins, reqs, tmo, pts=None, env=None, n=48):
    """Cut-point equivalence: each intermediate value named by the contract (opts['points']) is matched with a value the code
    computes (numerically), proved equal to it for all inputs with the earlier points generalised, and generalised in turn.
    Points are (term, sign): a stated sign ('>=0', '>0') is proved and kept.  -> outs, spec words, sign facts"""
    if pts is None:
        a = spec.args_of(c.fname, ins); pts = c.opts['points'](*a)
        rng = np.random.default_rng(7)
        x = sample.Sampler(rng, []).batch(c.fname, n, ['n'], c.gens); n = len(x); env = {'i%d' % k: np.ascontiguousarray(x[:, k]) for k in range(x.shape[1])}
    outs = list(outs); sw = list(sw); val = evnum(oracle.Oracle(env, n, 1.0), [o for o in outs] + [t for t, _ in pts])
    for i, v in list(val.items()):          # selections among inputs come out as bit patterns
        if isinstance(v, np.ndarray) and v.dtype == np.uint32: val[i] = oracle.from_bits(v)
    code = [t for t in T.subterms(outs) if t.w == 32 and t.op not in ('var', 'const') and isinstance(val[t.id], oracle.N)]
    m = {}; facts = []; log = []; tm = time.time()
    reqs0 = reqs; kept = []
    for j, (p, sign) in enumerate(pts):
        if sign == 'fact':          # a condition, proved from the points generalised so far and kept as those it names are generalised in turn
            p2, = T.subst([p], m)
            if p2 is not T.TRUE and prove_sub(c, p2, T.TRUE, ins, reqs, facts, 10.0)['status'] == 'proved': kept.append(p)
            continue
        reqs = reqs0 + T.subst(kept, m) if kept else reqs0
        if p.op in ('var', 'const'): continue
        v = val[p.id]; cand = []
        if isinstance(v, oracle.N):
            for t in code:
                u = val[t.id]; ok = ~(u.u | v.u)
                if ok.any() and (np.abs(u.v - v.v) <= 1e-6 * (u.m + v.m + 1e-30))[ok].all(): cand.append(t)
        p2, = T.subst([p], m); g = T.var('sw%d' % j); found = []
        for t in cand[:8]:
            t2, = T.subst([t], m)
            if t2.op == 'var' and t2 is not p2: continue
            if t2 is p2: found.append(t); continue
            r = prove_sub(c, t2, p2, ins, reqs, facts, min(tmo, 10.0))
            if r['status'] == 'proved': found.append(t)
        if p2.op == 'var': 
            for t in found: m[t.id] = p2
            continue
        if not found: log.append('point %d unmatched' % j); continue
        if sign and prove_sub(c, T.flt(p2, T.const(0)) if sign == '>=0' else T.fle(p2, T.const(0)), T.FALSE, ins, reqs, facts, 10.0)['status'] != 'proved':
            log.append('point %d: sign not proved' % j); sign = None
        if not real_valued(c, p2, ins, reqs, facts): log.append('point %d may be undefined' % j); continue
        m[p.id] = g
        for t in found: m[t.id] = g
        if sign: facts.append((g, sign))
    if log: c.sweep_log = log
    return T.subst(outs, m), [None if q is None else T.subst([q], m)[0] for q in sw], facts, reqs0 + T.subst(kept, m)

def sub_engine(c, ins, facts, tmo):
    e = engine(c, ins, tmo); ctx = real.Ctx(); ctx.used = set()
    for t, sg in facts: e.add_fact(e.ev(t, ctx)[1][0], {'>0': real.POS, '>=0': real.POS | real.ZERO}[sg])
    return e
def prove_sub(c, o, s, ins, reqs, facts, tmo):
    if o is s: return {'status': 'proved', 'how': 'syntactic'}
    try: r = lin.prove(o, s, sub_engine(c, ins, facts, tmo), reqs, tmo)
    except RecursionError: r = {'status': 'unknown', 'why': 'recursion'}
    if r['status'] != 'proved' and o.w == 32:
        try: r = real.prove_one(o, s, sub_engine(c, ins, facts, tmo), 5.0, relevant([o, s], reqs))
        except (RecursionError, real.Unsup, real.Budget, real.Undef): pass
    return r
def real_valued(c, t, ins, reqs, facts):
    """no branch of the value is infinite or undefined"""
    L = lin.Lin(sub_engine(c, ins, facts, 10.0), 10.0)
    try: return all(l[0] == 'r' or L.solve([L.boo(q) for q in reqs], lin.znot(L.cube(cb)), 5.0) == 'unsat' for cb, l in L.num(t))
    except (real.Unsup, real.Budget, real.Undef): return False

def prove_lin(c, o, s, ins, reqs, tmo):
    a = spec.args_of(c.fname, ins)
    cuts = c.opts['cuts'](*a) if 'cuts' in c.opts else ()
    lem = c.opts['lemmas'](*a) if 'lemmas' in c.opts else ()
    units = c.opts['cut_units'](*a) if 'cut_units' in c.opts else ()
    return lin.prove(o, s, engine(c, ins, tmo), reqs, tmo, spec.flat(cuts), lem, units)

ACC = {}
def prove_approx(c, o, s, tmo):
    lo, hi, tol = c.opts['approx']
    v = s.args[0].data
    if s.op != 'app' or s.args[0].op != 'var': return {'status': 'unknown', 'why': 'accuracy contract of an unsupported shape'}
    if o is s: return {'status': 'proved', 'how': 'syntactic (same library function)'}
    t0 = time.time()
    vs = {t.data for t in T.subterms([o]) if t.op == 'var'}
    if vs - {v}: return {'status': 'unknown', 'why': 'result depends on other inputs: %s' % sorted(vs)}
    cc, = T.subst([o], {T.var(v).id: T.var('c0_32')})
    key = (cc.id, s.data, lo, hi, id(tol))
    r = ACC.get(key)
    if r is None:
        try: r = accur.prove(cc, 'c0_32', accur.FN[s.data], lo, hi, tol, budget=3 * tmo)
        except NotImplementedError as e: r = {'status': 'unknown', 'why': 'accuracy engine: %s' % e}
        ACC[key] = r; r['t'] = time.time() - t0
    else:
        r = dict(r, t=0.0)
        if r['status'] == 'proved': r['how'] += ' (same obligation up to renaming)'
    r = dict(r)
    if r.get('env'): r['env'] = {v: r['env']['c0_32']}
    return r

def prove_panics(c, run, reqs, tier):
    out = []
    seen = {}
    for kind, cond, msg in run.oblig:
        if kind == 'panic' and c is not None and c.opts.get('panic_ok'): continue
        lab = '%s: %s' % (kind, msg)
        if cond is T.FALSE: continue
        k = (lab, cond.id)
        if k in seen: continue
        seen[k] = 1
        if c is not None and c.opts.get('lin'):
            t0 = time.time()
            try: r = prove_lin(c, cond, T.FALSE, run.ins, reqs, 10.0)
            except RecursionError: r = {'status': 'unknown'}
            if r['status'] == 'proved': r['t'] = time.time() - t0; out.append((lab, r)); continue
        r = prove_bits(cond, reqs + run.assumes, c.opts.get('ptmo', 6.0) if c else 6.0)
        if r['status'] != 'proved' and c is not None and c.mode in ('real', 'rel'):
            try:
                eng = engine(c, run.ins, 10.0)
                r2 = real.prove_one(cond, T.FALSE, eng, 5.0, reqs)
                if r2['status'] == 'proved': r = {'status': 'proved', 'how': 'ideal-real', 't': r.get('t', 0)}
            except Exception: pass
        out.append((lab, r))
    return out

# ---------------------------------------------------------------------------- concrete checking
def spec_eval(c, x):
    """evaluate the clause's spec on concrete inputs; returns a function native_out -> (bad, checked)"""
    n = x.shape[0]; name = c.fname
    ins = invars(name)
    env = {'i%d' % k: np.ascontiguousarray(x[:, k]) for k in range(x.shape[1])}
    kinds = [k for k in API[name]['out'] for _ in range(WORDS[k])]
    if c.oracle is not None:
        def f(out):
            bad, chk = c.oracle(x, out); return bad, chk, None
        return f
    if c.mode in ('bits', 'exact', 'exactz'):
        sw = spec.spec_words(c, ins)
        idx = [k for k, s in enumerate(sw) if s is not None]
        vals = evalnp.evaluate([sw[k] for k in idx], env, n)
        def f(out):
            bad = np.zeros(n, bool)
            for k, v in zip(idx, vals):
                d = out[:, k] != v
                if c.mode == 'exactz': d &= ((out[:, k] | v.astype(np.uint32)) & 0x7fffffff) != 0
                if c.mode != 'bits': d &= ~(np.isnan(out[:, k].copy().view(np.float32)) & np.isnan(v.astype(np.uint32).view(np.float32)))
                bad |= d
            return bad, np.ones(n, bool), (idx, vals)
        return f
    if c.mode == 'safe':
        return lambda out: (np.zeros(n, bool), np.ones(n, bool), None)
    if c.mode == 'relx':
        names = ['o%d' % k for k in range(API[name]['nout'])]
        os_ = [T.var(q) for q in names]
        conds = c.fn(spec.args_of(name, ins), spec.outs_of(name, os_))
        def f(out):
            e2 = dict(env)
            for k, q in enumerate(names): e2[q] = np.ascontiguousarray(out[:, k])
            vs = evalnp.evaluate([t for _, t in conds], e2, n)
            bad = np.zeros(n, bool)
            for v in vs: bad |= v == 0
            return bad, np.ones(n, bool), None
        return f
    if c.mode == 'rel':
        names = ['o%d' % k for k in range(API[name]['nout'])]
        os_ = [T.var(q) for q in names]
        conds = c.fn(spec.args_of(name, ins), spec.outs_of(name, os_))
        fin = finite_in(name, x)
        def f(out):
            e2 = dict(env)
            for k, q in enumerate(names): e2[q] = np.ascontiguousarray(out[:, k])
            orc = oracle.Oracle(e2, n, c.tol)
            bad = np.zeros(n, bool); chk = np.zeros(n, bool)
            for v in orc.ev([t for _, t in conds]):
                v = orc.bl(v); bad |= ~v.v & ~v.a; chk |= ~v.a
            return bad & fin, chk & fin, None
        return f
    if c.mode == 'approx':
        sw = spec.spec_words(c, ins); lo, hi, tol = c.opts['approx']
        idx = [k for k, q in enumerate(sw) if q is not None]
        def f(out):
            bad = np.zeros(n, bool); chk = np.zeros(n, bool)
            for k in idx:
                q = x[:, int(sw[k].args[0].data[1:])].copy().view(np.float32).astype(np.float64)
                with np.errstate(all='ignore'):
                    ok = (q >= lo) & (q <= hi); q = np.where(ok, q, 0.0)
                    v = accur.FN[sw[k].data](q, q, q)[2]; t = tol(q, q, v, v)
                    o = np.ascontiguousarray(out[:, k]).view(np.float32).astype(np.float64)
                    bad |= ok & ~(np.abs(o - v) <= t) & (t < np.inf); chk |= ok
            return bad, chk, None
        return f
    if c.mode == 'real':
        sw = spec.spec_words(c, ins)
        idx = [k for k, s in enumerate(sw) if s is not None]
        orc = oracle.Oracle(env, n, c.tol)
        fin = finite_in(name, x)
        vals = orc.ev([sw[k] for k in idx])
        def f(out):
            bad = np.zeros(n, bool); anychk = np.zeros(n, bool)
            for k, v in zip(idx, vals):
                o = np.ascontiguousarray(out[:, k])
                if kinds[k] in ('U', 'I', 'mU', 'N') and isinstance(v, np.ndarray): b, ch = o != v, np.ones(n, bool)
                else: b, ch = oracle.compare(v, o, c.abstol, c.reltol, n)
                bad |= b; anychk |= ch
            return bad & fin, anychk & fin, (idx, vals)
        return f
    return None

def finite_in(name, x):
    fin = np.ones(x.shape[0], bool); pos = 0
    for k in API[name]['in']:
        for _ in range(WORDS[k]):
            if k not in ('U', 'I', 'N', 'B', 'H', 'mU'): fin &= (x[:, pos] & 0x7f800000) != 0x7f800000
            pos += 1
    return fin

def req_mask(c, x):
    n = x.shape[0]; ok = np.ones(n, bool)
    env = {'i%d' % k: np.ascontiguousarray(x[:, k]) for k in range(x.shape[1])}
    rs = spec.req_terms(c, invars(c.fname))
    if rs:
        for v in evalnp.evaluate(rs, env, n): ok &= v != 0
    if c.sample_req is not None: ok &= c.sample_req(x)
    return ok

def modes_of(c):
    if 'modes' in c.opts: return c.opts['modes']
    if c.mode == 'fold': return ['i', 'n', 'w', 'u']
    return ['x', 'x', 'n', 'i'] if c.mode in ('bits', 'exact', 'exactz', 'relx', 'safe') else ['i', 'n', 'w', 'u']

def sample_check(world, c, n, seed, cfgs, consts, extra=None):
    """run the real code on generated inputs in every configuration against the clause.
    -> dict(evals, checked, fail=None|{...})"""
    rng = np.random.default_rng([seed, int(hashlib.md5(c.id.encode()).hexdigest()[:8], 16)])
    s = sample.Sampler(rng, consts)
    x = s.batch(c.fname, n, modes_of(c), c.gens)
    if extra is not None and len(extra): x = np.concatenate([extra, x])
    for k, v in c.opts.get('fix', {}).items(): x[:, k] = v
    x = x[req_mask(c, x)]
    res = {'evals': 0, 'checked': 0, 'distinct': 0, 'fail': None, 'why': None, 'req_ok': int(x.shape[0])}
    if x.shape[0] == 0: return res
    try: f = spec_eval(c, x)
    except NotImplementedError as e:
        res['why'] = 'oracle: %s' % e; return res
    if f is None: res['why'] = 'no numeric oracle'; return res
    for cfg in cfgs:
        st, out = world.native(cfg).run(c.fname, x)
        res['evals'] += x.shape[0]
        pan = st != 0
        if c.opts.get('panic_ok'): pan = st >= 2
        if pan.any() and c.panics:
            if c.mode in ('real', 'rel'):
                pass
            k = int(np.argmax(pan)); res['fail'] = mkfail(c, cfg, x[k], None, {1: 'the function panicked', 2: 'the process crashed', 3: 'the function does not return'}[int(st[k])], None, k); return res
        bad, chk, ev = f(out)
        bad = bad & ~pan
        res['checked'] += int(chk.sum())
        if bad.any():
            k = int(np.argmax(bad)); res['fail'] = mkfail(c, cfg, x[k], out[k], 'output differs from the contract', ev, k); return res
    res['distinct'] = len(np.unique(x, axis=0))
    return res

def mkfail(c, cfg, xi, oi, why, ev, k):
    def fl(ws): return [float(v) if np.isfinite(v) else str(v) for v in np.asarray(ws, dtype=np.uint32).view(np.float32)]
    d = {'function': c.fname, 'clause': c.label, 'config': cfg, 'why': why, 'input_words': ['%#010x' % v for v in xi], 'input_floats': fl(xi)}
    if oi is not None: d['output_words'] = ['%#010x' % v for v in oi]; d['output_floats'] = fl(oi)
    if ev is not None:
        idx, vals = ev; exp = {}
        for i, v in zip(idx, vals):
            if isinstance(v, oracle.N): exp['out%d' % i] = {'value': float(v.v[k]), 'error_bound': float(v.e[k])}
            elif isinstance(v, oracle.B): exp['out%d' % i] = {'value': bool(v.v[k])}
            else: exp['out%d' % i] = {'bits': '%#010x' % int(v[k])}
        d['expected'] = exp
    return d

def env_inputs(name, env, realenv=False, ins=None):
    if ins is not None:
        vs = {t.data for t in T.subterms(ins) if t.op == 'var'}
        e = {v: np.array([T.f2b(float(env.get(v, 0))) if realenv else int(env.get(v, 0)) & 0xffffffff], dtype=np.uint32) for v in vs}
        try: return np.stack([np.broadcast_to(np.asarray(v, dtype=np.uint32), (1,)) for v in evalnp.evaluate(ins, e, 1)], 1).copy()
        except NotImplementedError: env = {}
    x = np.zeros((1, API[name]['nin']), dtype=np.uint32)
    for k in range(x.shape[1]):
        v = env.get('i%d' % k, 0)
        x[0, k] = T.f2b(float(v)) if realenv else int(v) & 0xffffffff
    return x

def neighbours(x, rng, n):
    """inputs around a (real) counter-model"""
    b = np.repeat(x, n, 0); f = b.view(np.float32).astype(np.float64)
    j = rng.random(f.shape) < 0.3
    f = np.where(j, f * (1 + rng.normal(0, .1, f.shape)) + rng.normal(0, .05, f.shape), f)
    sc = 2.0 ** rng.integers(-2, 3, (n, 1))
    f = np.where(rng.random((n, 1)) < 0.2, f * sc, f)
    f[0] = x.view(np.float32)[0]
    return np.nan_to_num(f).astype(np.float32).view(np.uint32)

# ---------------------------------------------------------------------------- one function
def rounding_of(world, c, raws, gc, res):
    """proved rounding-error bounds of the code's own expressions (evidence; never an alarm)"""
    from . import rounding
    seen = {}
    for cfg in gc:
        r = raws.get(cfg)
        if r is None or r.dead: continue
        if r.key not in seen:
            try: seen[r.key] = rounding.analyse(c, r, spec.spec_words(c, r.ins), lambda: execute(world, cfg, c.fname, 'acc').outs)
            except Exception as e: seen[r.key] = [(0, 'internal: %s' % e)]
            for x in seen[r.key]: res['rounding'].append((c.id, cfg) + x[:1] + ((x[1], float(x[2])) if len(x) == 3 else (x[1],)))

def verify_fn(world, name, clauses, tier, seed, cfgs=None):
    if name.endswith('_any'):
        from . import induct
        return induct.verify_any(sys.modules[__name__], world, name, clauses, tier, seed, cfgs or list(world.mods))
    t00 = time.time()
    cfgs = cfgs or list(world.mods)
    res = {'fn': name, 'oblig': [], 'fails': [], 'called': set(), 'inlined': set(), 'samples': [], 'errors': [], 'groups': 0, 'tv': 0, 'tvbad': [], 'rounding': []}
    nq = 600 if tier == 'quick' else 6000
    # ---- concrete runs first (cheap, and any failure is decisive)
    raws = {}
    for cfg in cfgs:
        try: raws[cfg] = execute(world, cfg, name, 'raw')
        except X.Unsupported as e: res['errors'].append('%s: %s' % (cfg, e)); raws[cfg] = None
        except RecursionError: res['errors'].append('%s: recursion' % cfg); raws[cfg] = None
    roots = [t for r in raws.values() if r for t in r.outs + [c for _, c, _ in r.oblig]]
    consts = sample.consts_of(roots)
    for c in clauses:
        n = int((c.nsamp or 1) * nq)
        sr = sample_check(world, c, n, seed, cfgs, consts)
        sr['clause'] = c.id; res['samples'].append(sr)
        if sr['fail']: res['fails'].append(sr['fail'])
    # ---- translation validation of the executor on this function
    rng = np.random.default_rng([seed, 77])
    x = sample.Sampler(rng, consts).batch(name, 96, ['x', 'n', 'i'], clauses[0].gens if clauses else {})
    env = {'i%d' % k: np.ascontiguousarray(x[:, k]) for k in range(x.shape[1])}
    done = {}
    for cfg in cfgs:
        r = raws[cfg]
        if r is None: continue
        if r.key in done: rv = done[r.key]
        else:
            try: rv = evalnp.evaluate(r.outs + [c for _, c, _ in r.oblig], env, x.shape[0])
            except NotImplementedError as e: rv = None; res['errors'].append('%s: evaluator: %s' % (cfg, e))
            done[r.key] = rv
        if rv is None: continue
        st, o = world.native(cfg).run(name, x)
        pan = np.zeros(x.shape[0], bool)
        for v in rv[len(r.outs):]: pan |= v != 0
        ok = (st == 0) & ~pan; mism = ((st != 0) != pan).any()
        app = any(t.op == 'app' for t in T.subterms(r.outs))
        for k in range(len(r.outs)):
            a, b = rv[k].astype(np.uint32), np.ascontiguousarray(o[:, k])
            d = (a != b) & ok & ~(np.isnan(a.view(np.float32)) & np.isnan(b.view(np.float32)))
            if d.any() and not app and clauses[0].mode != 'safe': mism = True
        res['tv'] += x.shape[0]
        if mism and not r.dead: res['tvbad'].append(cfg)
    # ---- deductive part
    for c in clauses:
        if res['fails'] and any(f['function'] == name and f['clause'] == c.label for f in res['fails']):
            res['oblig'].append({'id': c.id + '/out', 'status': 'refuted', 'how': 'native failing input', 'cfgs': cfgs, 'clause': c.id}); continue
        par = c.opts['param']() if 'param' in c.opts else None
        ins = par[0] if par else None
        reqs = [t for t in spec.req_terms(c, ins or invars(name)) + (list(par[2]) if par and len(par) > 2 else []) if t is not T.TRUE]
        level = 'exact' if c.mode in ('bits', 'exact', 'exactz', 'relx', 'approx') else 'raw' if c.mode == 'safe' else 'real'
        groups = {}
        for cfg in cfgs:
            if cfg in res['tvbad']:
                res['oblig'].append({'id': c.id, 'status': 'unknown', 'why': 'executor does not reproduce the native run', 'cfgs': [cfg], 'clause': c.id}); continue
            try:
                r = raws[cfg] if level == 'raw' and raws.get(cfg) and not reqs else execute(world, cfg, name, level, reqs, ins, c)
            except (X.Unsupported, RecursionError) as e:
                res['oblig'].append({'id': c.id, 'status': 'unknown', 'why': 'outside the verifier: %s' % e, 'cfgs': [cfg], 'clause': c.id}); continue
            groups.setdefault(r.key, (r, []))[1].append(cfg)
        for key, (r, gc) in groups.items():
            res['groups'] += 1
            res['called'] |= set(r.called); res['inlined'] |= set(r.inlined)
            try: rs = prove_clause(c, r, reqs, tier)
            except Exception as e:
                rs = [('all', {'status': 'unknown', 'why': 'internal: %s' % traceback.format_exc()[-600:]})]
            if any(q['status'] != 'proved' for _, q in rs) and r.called and raws.get(gc[0]):
                # contracts of callees may be too abstract: retry through the bodies
                try:
                    rs2 = prove_clause(c, raws[gc[0]] if ins is None else execute(world, gc[0], name, 'raw', reqs, ins, c), reqs, tier)
                    rs = [(l, b if a['status'] != 'proved' else a) for (l, a), (_, b) in zip(rs, rs2)] if len(rs) == len(rs2) else rs2
                except Exception as e: pass
            if c.mode == 'real' and ins is None and not c.opts.get('lin') and 'points' not in c.opts and all(q['status'] == 'proved' for _, q in rs): rounding_of(world, c, raws, gc, res)
            ps = prove_panics(c, r, reqs, tier) if c.panics else []
            for lab, q in rs + [('panic:' + l, q) for l, q in ps]:
                ob = {'id': '%s/%s' % (c.id, lab), 'status': q['status'], 'how': q.get('how'), 'why': q.get('why'), 't': q.get('t', 0.0), 'cfgs': gc, 'clause': c.id}
                if q['status'] != 'proved' and q.get('env'):
                    isreal = level == 'real' and not lab.startswith('panic:')
                    x0 = env_inputs(name, q['env'], isreal, ins)
                    ob['model'] = ['%#010x' % v for v in x0[0]]
                    rng2 = np.random.default_rng([seed, 5])
                    ext = np.concatenate([x0, neighbours(x0, rng2, 400)]) if isreal else x0
                    # a model of a parametrised clause need not be representable (unit vectors): only generated inputs count then
                    if True:
                        sr = sample_check(world, c, 40 if not isreal else 400, seed + 1, gc, consts, ext if ins is None else None)
                        if sr['fail']: res['fails'].append(sr['fail']); ob['status'] = 'refuted'
                res['oblig'].append(ob)
        # deeper search when something is open
        opn = [o for o in res['oblig'] if o['clause'] == c.id and o['status'] != 'proved']
        if opn and not any(f['clause'] == c.label for f in res['fails']):
            sr = sample_check(world, c, (12000 if tier == 'quick' else 100000), seed + 2, sorted({g for o in opn for g in o['cfgs']}), consts)
            res['samples'].append(dict(sr, clause=c.id))
            if sr['fail']: res['fails'].append(sr['fail'])
    res['wall'] = time.time() - t00
    res['called'] = sorted(res['called']); res['inlined'] = sorted(res['inlined'])
    for s in world.nat.values(): pass
    return res
