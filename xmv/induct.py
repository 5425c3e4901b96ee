"""Functions over a sequence of any length (entries *_any): proof by induction over the loops.

The executor has turned every loop over the sequence into its loop-carried values: (variable, value after the first element,
value after one more element), with the values after the loop expressed over the same variables.  The contract (opts['fold'])
is a fold: stages, each with an initial value and a step, and the results over the final values.  The invariants
`loop variable = component of the fold over the elements seen so far` are found by running both numerically and are then
proved for all inputs: base case, step, and the results from the final values.  The length is bounded only by 2^31."""
import time, copy, traceback
import numpy as np
from . import term as T, spec, evalnp, sample
from . import exec as X

NS = (1, 2, 3, 5, 8, 9, 16, 17, 24, 31, 32)
TVNS = (1, 2, 3, 4, 7)

def names(ts): return {t.data for t in T.subterms([t for t in ts if t is not None]) if t.op == 'var'}

def needed(loops, roots):
    """loop variables the roots depend on, per loop"""
    want = names(roots); out = [[] for _ in loops]
    while True:
        n = len(want)
        for L in loops:
            for v, b, s in L.vars:
                if v.data in want: want |= names([b, s])
        if len(want) == n: break
    return [[x for x in L.vars if x[0].data in want] for L in loops]

def decided(run, terms):
    """conditions over counters alone that the counter bounds decide"""
    from . import smt
    m = {}
    for t in T.subterms(terms):
        if t.w == 1 and t.op not in ('var', 'const'):
            vs = names([t])
            if vs and vs <= set(run.counters):
                if smt.check(t, run.cfacts, timeout=3.0, use_cvc5=False)[0] == 'unsat': m[t.id] = T.FALSE
                elif smt.check(T.bnot(t), run.cfacts, timeout=3.0, use_cvc5=False)[0] == 'unsat': m[t.id] = T.TRUE
    return m

def simulate(run, need, x, q0, n, given=()):
    """run the loops on concrete elements (x[:, q0 + 3 j + k]) -> environment after all loops, trace[loop][m] = {var: values}"""
    N = x.shape[0]; env = {'i%d' % k: np.ascontiguousarray(x[:, k]) for k in range(x.shape[1])}; env.update(given)
    for t in T.subterms([t for vs in need for v in vs for t in v if t is not None] + run.outs):
        if t.op == 'var' and t.data not in env and not t.data.startswith(('lp', 'pt')): env[t.data] = np.zeros(N, dtype=np.uint32 if t.w <= 32 else np.uint64)
    trace = []
    for L, vs in zip(run.loops, need):
        zero = lambda t: np.zeros(N, dtype=np.uint32 if t.w <= 32 else np.uint64)
        vals = evalnp.evaluate([b if b is not None else T.const(0, v.w) for v, b, _ in vs], env, N) if vs else []
        tr = []
        for m in range(1, n + 1):
            for (v, _, _), a in zip(vs, vals): env[v.data] = np.broadcast_to(a, (N,)) if isinstance(a, np.ndarray) else np.full(N, a)
            tr.append({v.data: env[v.data] for v, _, _ in vs})
            if m == n: break
            for k in range(3): env[L.pt[k].data] = np.ascontiguousarray(x[:, q0 + 3 * m + k])
            vals = evalnp.evaluate([s for _, _, s in vs], env, N) if vs else []
        trace.append(tr)
    return env, trace

def f32(a): return np.asarray(a).astype(np.uint32).view(np.float32).astype(np.float64)

def validate(world, cfg, name, run, x, q0):
    """the executor's loops against the native code"""
    need = needed(run.loops, run.outs); cnt = 0
    app = any(t.op == 'app' for t in T.subterms(run.outs + [t for L in need for v in L for t in v if t is not None]))
    for n in TVNS:
        y = x.copy(); y[:, -1] = n
        env, _ = simulate(run, need, y, q0, n)
        st, o = world.native(cfg).run(name, y); cnt += len(y)
        if (st != 0).any(): return cnt, False
        for k, v in enumerate(evalnp.evaluate(run.outs, env, len(y))):
            a, b = np.asarray(v).astype(np.uint32), np.ascontiguousarray(o[:, k])
            d = (a != b) & ~(np.isnan(a.view(np.float32)) & np.isnan(b.view(np.float32)))
            if d.any() and not app: return cnt, False
    return cnt, True

class Failed(Exception): pass

def prove_fold(V, c, run, reqs, tier, native):
    """-> [(label, result)]"""
    F = c.opts['fold']; ins = run.ins; nin = len(ins); q0 = nin - 97; p0 = ins[q0:q0 + 3]; tmo = V.tmo_of(c, tier)
    res = []; gen = c.opts.get('gen_out', ())
    # generalised outputs: arbitrary values, in every term they occur in
    m = {run.outs[k].id: T.var('go%d' % k) for k in gen if run.outs[k].op != 'const'}
    outs = T.subst(run.outs, m)
    loops = []
    for L in run.loops:
        K = X.Loop(L.k, L.where); K.pt, K.pos = L.pt, L.pos
        K.vars = [(v, None if b is None else T.subst([b], m)[0], T.subst([s], m)[0]) for v, b, s in L.vars]; loops.append(K)
    run = copy.copy(run); run.loops = loops; run.outs = outs
    need = needed(loops, outs)
    allt = outs + [t for vs in need for v in vs for t in v[1:] if t is not None]
    rng = np.random.default_rng(11); N = 40; n = 6
    x = sample.Sampler(rng, []).batch(c.fname, N, ['n'], {}); N = x.shape[0]; x[:, -1] = n
    x[:, q0:q0 + 96] = rng.normal(0, 3, (N, 96)).astype(np.float32).view(np.uint32)
    st, ov = native.run(c.fname, x)
    env, trace = simulate(run, need, x, q0, n, {'go%d' % k: np.ascontiguousarray(ov[:, k]) for k in gen})
    go = [T.var('go%d' % k) if k in gen else outs[k] for k in range(len(outs))]
    genv = {'i%d' % k: np.ascontiguousarray(x[:, k]) for k in range(x.shape[1])}
    for k in gen: genv['go%d' % k] = np.ascontiguousarray(ov[:, k])
    # ghost stages, numerically
    stages = []; fin = []; gtr = []
    for si, S in enumerate(F['stages']):
        init = spec.flat(S['init'](p0, fin, go)); k = len(init)
        g = [T.var('gh%d_%d' % (si, j)) for j in range(k)]; f = [T.var('gf%d_%d' % (si, j)) for j in range(k)]; p = [T.var('gp%d' % j) for j in range(3)]
        stp = spec.flat(S['step'](g, p, fin, go))
        vals = evalnp.evaluate(init, genv, N); tr = []
        for mm in range(1, n + 1):
            tr.append([np.broadcast_to(np.asarray(v), (N,)).astype(np.uint32) for v in vals])
            for j in range(k): genv[g[j].data] = tr[-1][j]
            if mm == n: break
            for j in range(3): genv[p[j].data] = np.ascontiguousarray(x[:, q0 + 3 * mm + j])
            vals = evalnp.evaluate(stp, genv, N)
        for j in range(k): genv[f[j].data] = tr[-1][j]; genv[g[j].data] = tr[2][j]
        for j in range(3): genv[p[j].data] = np.ascontiguousarray(x[:, q0 + 9 + j])
        stages.append((S, init, g, f, p, stp, list(fin))); fin = fin + f; gtr.append(tr)
    # ---- facts of the fold itself (specification only)
    facts = []        # over final values
    own = {}
    for si, (S, init, g, f, p, stp, prev) in enumerate(stages):
        fs = []
        for lab, fn in S.get('facts', ()):
            prem = lambda q: [h(q) for _, h in S['facts']]
            b = V.prove_sub(c, fn(init), T.TRUE, ins, reqs + facts, [], 10.0)
            s = V.prove_sub(c, fn(stp), T.TRUE, ins, reqs + facts + prem(g), [], 10.0)
            ok = b['status'] == s['status'] == 'proved'
            res.append(('stage%d/%s' % (si, lab), {'status': 'proved', 'how': 'induction over the fold (' + str(s.get('how')) + ')'} if ok else {'status': 'unknown', 'why': 'invariant of the fold: %s / %s' % (b.get('why'), s.get('why'))}))
            if ok: fs.append(fn)
        own[si] = [fn(g) for fn in fs]; facts += [fn(f) for fn in fs]
    # ---- candidate invariants
    cand = {}         # variable name -> ('g', stage, comp) | ('c', const term)
    for L, vs, tr in zip(run.loops, need, trace):
        for v, b, s in vs:
            if v.w != 32: continue
            a = [f32(t[v.data]) for t in tr]; hit = None
            a0 = np.asarray(tr[0][v.data]).astype(np.uint32)
            if b is not None and all((np.asarray(t[v.data]).astype(np.uint32) == a0[0]).all() for t in tr): hit = ('c', T.const(int(a0[0]), 32))
            if hit is None:
                for si in range(len(stages)):
                    for j in range(len(stages[si][2])):
                        z = [f32(t[j]) for t in gtr[si]]
                        if all((np.abs(p_ - q_) <= 1e-4 * (1 + np.abs(q_)))[np.isfinite(q_)].all() and np.isfinite(q_).any() for p_, q_ in zip(a, z)): hit = ('g', si, j); break
                    if hit: break
            if hit: cand[v.data] = hit
    dm = decided(run, allt)
    m2 = dict(dm)
    def norm(t, sub):
        t, = T.subst([t], m2)
        t, = T.subst([t], {T.var(n_, 32).id: w for n_, w in sub.items()})
        return V.expand([t], c)[0]
    matched = dict(cand); why = {}
    order = [(L, vs) for L, vs in zip(run.loops, need) if vs]
    while True:
        dropped = False; exitsub = {}; proofs = {}
        for L, vs in order:
            fsub = dict(exitsub); here = {}
            for v, b, s in vs:
                h = cand.get(v.data)
                if h is None: continue
                here[v.data] = h[1] if h[0] == 'c' else stages[h[1]][2][h[2]]
            posok = L.pos.data in run.counters and run.counters[L.pos.data][1] == 1 and keepstep(L) == 1
            for v, b, s in vs:
                h = cand.get(v.data)
                if h is None: continue
                if not posok: why[v.data] = 'the loop in %s does not visit every element once' % L.where; del cand[v.data]; dropped = True; continue
                if h[0] == 'c': tb = ts = h[1]; hyp = []; pi = ps = []
                else:
                    S, init, g, f, p, stp, prev = stages[h[1]]; tb = init[h[2]]; ts, = T.subst([stp[h[2]]], {p[k].id: L.pt[k] for k in range(3)}); hyp = own[h[1]]
                    pi = S['ipoints'](p0, prev, go) if 'ipoints' in S else []; ps = S['spoints'](g, L.pt, prev, go) if 'spoints' in S else []
                e2 = dict(genv)
                for k in range(3): e2[L.pt[k].data] = genv['gp%d' % k]
                r1 = prove_eq(V, c, norm(b, fsub), tb, ins, reqs + facts, tmo, pi, e2, N)
                r2 = prove_eq(V, c, norm(s, {**fsub, **here}), ts, ins, reqs + facts + hyp, tmo, ps, e2, N) if r1['status'] == 'proved' else r1
                if r2['status'] != 'proved':
                    why[v.data] = '%s of the invariant on a loop-carried value of %s: %s' % ('first element' if r1['status'] != 'proved' else 'step', L.where, r2.get('why')); del cand[v.data]; dropped = True; continue
                proofs[v.data] = (r1, r2)
            for v, b, s in vs:
                h = cand.get(v.data)
                if h: exitsub[v.data] = h[1] if h[0] == 'c' else stages[h[1]][3][h[2]]
        if not dropped: break
    k = 0
    for vn, (r1, r2) in proofs.items():
        res.append(('invariant%d/first' % k, dict(r1, how='induction: ' + str(r1.get('how'))))); res.append(('invariant%d/step' % k, dict(r2, how='induction: ' + str(r2.get('how'))))); k += 1
    want = spec.flat(F['out'](fin, go)); pts = F['opoints'](fin, go) if 'opoints' in F else []
    soft = False
    for k, (o, w) in enumerate(zip(outs, want)):
        if w is None: continue
        o2 = norm(o, exitsub)
        r = prove_eq(V, c, o2, w, ins, reqs + facts, tmo, pts, genv, N)
        if r['status'] == 'proved': r['how'] = 'induction over the sequence: ' + str(r.get('how'))
        else:
            # a value that follows the fold on small sequences and is not provably that fold is an alarm; a shape without one is not
            blame = [why[v] for v in sorted(needed_names(run, o)) if v in why]
            r = {'status': 'unknown', 'why': blame[0]} if blame else {'status': 'bounded', 'why': 'no inductive invariant in the contract\'s terms (%s)' % r.get('why')}
        res.append(('out%d' % k, r))
    return res

def needed_names(run, o): return {v.data for vs in needed(run.loops, [o]) for v, _, _ in vs}
def keepstep(L):
    for v, b, s in L.vars:
        if v is L.pos: return s.args[1].data if s.op == 'add' and s.args[0] is v else None
    return None

def prove_eq(V, c, o, s, ins, reqs, tmo, pts, env, N):
    t0 = time.time()
    if o is s: return {'status': 'proved', 'how': 'syntactic', 't': 0.0}
    facts = []
    if pts:
        (o,), (s,), facts, reqs = V.sweep(c, [o], [s], ins, reqs, tmo, pts, env, N)
    r = V.prove_sub(c, o, s, ins, reqs, facts, tmo)
    if r['status'] != 'proved': r = {'status': 'unknown', 'why': r.get('why')}
    r['t'] = time.time() - t0
    return r

def verify_any(V, world, name, clauses, tier, seed, cfgs):
    t00 = time.time()
    res = {'fn': name, 'oblig': [], 'fails': [], 'called': set(), 'inlined': set(), 'samples': [], 'errors': [], 'groups': 0, 'tv': 0, 'tvbad': []}
    nin = V.API[name]['nin']; q0 = nin - 97
    raws = {}; early = {}
    for cfg in cfgs:
        try: raws[cfg] = V.execute(world, cfg, name, 'raw')
        except X.EarlyExit as e: early[cfg] = str(e); raws[cfg] = None
        except (X.Unsupported, RecursionError) as e: res['errors'].append('%s: %s' % (cfg, e)); raws[cfg] = None
    consts = sample.consts_of([t for r in raws.values() if r for t in r.outs])
    # ---- the real code on sequences of many lengths
    for c in clauses:
        for pc in (c.opts['samples'] if c.mode == 'fold' else [c]):
            sr = V.sample_check(world, pc, int((pc.nsamp or 1) * (200 if tier == 'quick' else 2000)), seed, cfgs, consts); sr['clause'] = c.id; res['samples'].append(sr)
            if sr['fail']:
                sr['fail']['clause'] = c.label; res['fails'].append(sr['fail']); break
    # ---- executor against native code
    rng = np.random.default_rng([seed, 77])
    x = sample.Sampler(rng, consts).batch(name, 48, ['x', 'n', 'i'], {}); done = {}
    for cfg in cfgs:
        r = raws[cfg]
        if r is None or r.dead: continue
        try: k, ok = validate(world, cfg, name, r, x, q0)
        except NotImplementedError as e: res['errors'].append('%s: evaluator: %s' % (cfg, e)); continue
        res['tv'] += k
        if not ok: res['tvbad'].append(cfg)
    for c in clauses:
        if any(f['clause'] == c.label for f in res['fails']):
            res['oblig'].append({'id': c.id + '/out', 'status': 'refuted', 'how': 'native failing input', 'cfgs': cfgs, 'clause': c.id}); continue
        reqs = [t for t in spec.req_terms(c, V.invars(name)) if t is not T.TRUE]
        groups = {}
        def put(lab, q, cf): res['oblig'].append({'id': '%s/%s' % (c.id, lab), 'status': q['status'], 'how': q.get('how'), 'why': q.get('why'), 't': q.get('t', 0.0), 'cfgs': cf, 'clause': c.id})
        for cfg in cfgs:
            if cfg in early and c.mode != 'safe': put('every-element', {'status': 'unknown', 'why': early[cfg]}, [cfg]); continue
            if cfg in res['tvbad']: put('all', {'status': 'unknown', 'why': 'executor does not reproduce the native run'}, [cfg]); continue
            if raws[cfg] is None: put('any-length', {'status': 'bounded', 'why': 'loop shape outside the verifier; the fixed lengths are proved, longer sequences run only'}, [cfg]); continue
            try: r = raws[cfg] if c.mode == 'safe' else V.execute(world, cfg, name, 'real', reqs, None, c)
            except (X.Unsupported, RecursionError) as e: put('any-length', {'status': 'bounded', 'why': str(e)}, [cfg]); continue
            groups.setdefault(r.key, (r, []))[1].append(cfg)
        for key, (r, gc) in groups.items():
            res['groups'] += 1; res['called'] |= set(r.called); res['inlined'] |= set(r.inlined)
            if r.dead: put('returns', {'status': 'refuted', 'why': 'never returns'}, gc); continue
            try: rs = prove_fold(V, c, r, reqs, tier, world.native(gc[0])) if c.mode == 'fold' else prove_init(r)
            except Exception: rs = [('all', {'status': 'unknown', 'why': 'internal: %s' % traceback.format_exc()[-900:]})]
            if c.mode == 'safe':
                try: r0 = V.execute(world, gc[0], name, 'raw', empty=True); rs += [('empty:' + l, q) for l, q in prove_init(r0) + V.prove_panics(c, r0, reqs, tier)]
                except X.Unsupported as e: rs.append(('empty', {'status': 'unknown', 'why': str(e)}))
            for lab, q in rs + [('panic:' + l, q) for l, q in V.prove_panics(c, r, reqs, tier)]: put(lab, q, gc)
    res['wall'] = time.time() - t00
    res['called'] = sorted(res['called']); res['inlined'] = sorted(res['inlined'])
    return res

def prove_init(run):
    """no output word depends on uninitialised memory, directly or through a loop"""
    need = needed(run.loops, run.outs); ts = list(run.outs) + [t for vs in need for v in vs for t in v[1:] if t is not None]
    bad = sorted(n for n in names(ts) if n.startswith('uninit')) + [v.data for vs in need for v, b, _ in vs if b is None]
    return [('results-initialised', {'status': 'unknown', 'why': 'a result depends on uninitialised memory'} if bad else {'status': 'proved', 'how': 'syntactic'})]
