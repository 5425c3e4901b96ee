#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--fn NAME] [--cfg a,b] [--no-build]   (environment: VERIF_TIER, VERIF_SEED)

Rebuilds /repo's working tree in every supported configuration, generates the proof obligations of the
property's contracts from the emitted LLVM IR, discharges them, and writes evidence/<id>.json."""
import sys, os, time, json, argparse, multiprocessing as mp, shutil, traceback
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from xmv import build, spec, verify, smt
import specs

def worker(job):
    name, cids, tier, seed, cfgs = job
    os.environ['PYTHONHASHSEED'] = '0'
    cl = [c for c in spec.CLAUSES[name] if c.id in cids]
    t0 = time.time(); s0 = dict(smt.stats)
    try:
        r = verify.verify_fn(WORLD, name, cl, tier, seed, cfgs)
    except Exception:
        r = {'fn': name, 'oblig': [{'id': c.id, 'status': 'unknown', 'why': 'internal error: ' + traceback.format_exc()[-1500:], 'cfgs': cfgs, 'clause': c.id} for c in cl], 'fails': [], 'called': [], 'inlined': [],
             'samples': [], 'errors': [traceback.format_exc()[-1500:]], 'groups': 0, 'tv': 0, 'tvbad': [], 'wall': time.time() - t0}
    r['smt'] = {k: smt.stats[k] - s0[k] for k in s0}
    for c in list(WORLD.nat): WORLD.nat[c].close()
    WORLD.nat.clear()
    return r

def concretise(results, seed, t0):
    """open memory obligations: search a failing input with an address-sanitizer build of the same code"""
    import numpy as np
    from xmv import sample, native
    todo = {}
    for r in results:
        if r['fails']: continue
        for o in r['oblig']:
            if o['status'] not in ('proved', 'bounded'):
                for g in o['cfgs']: todo.setdefault(g, {}).setdefault(r['fn'], []).append((r, o))
    found = set()
    for g in sorted(todo, key=lambda g: -len(todo[g]))[:4]:
        fns = [f for f in todo[g] if f not in found][:40]
        if not fns or time.time() - t0 > 600: continue
        try: nat = native.Native(build.build_asan(g), dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=1'))
        except Exception: continue
        for f in fns:
            if time.time() - t0 > 700: break
            cl = {c.id: c for c in spec.CLAUSES[f]}; c = cl.get(todo[g][f][0][1]['clause']) or spec.CLAUSES[f][0]
            try:
                x = sample.Sampler(np.random.default_rng([seed, 9]), []).batch(f, 120, verify.modes_of(c), c.gens); x = x[verify.req_mask(c, x)]
                for k0 in range(0, min(len(x), 96)):      # one by one: a memory error usually shows on any input
                    x1 = x[k0:k0 + 1]; st, out = nat.run(f, x1)
                    if st[0]: break
                x = x1
            except Exception: continue
            bad = st >= 2 if c.opts.get('panic_ok') else st != 0
            if bad.any():
                k = int(np.argmax(bad)); found.add(f)
                todo[g][f][0][0]['fails'].append(verify.mkfail(c, g, x[k], None, {1: 'the function panicked', 2: 'memory error (address sanitizer)', 3: 'the function does not return'}[int(st[k])], None, k))
        nat.close()
        shutil.rmtree(os.path.join(build.BUILD, g + 'asan'), ignore_errors=True)

def late(name, cids, cfgs):
    return {'fn': name, 'oblig': [{'id': c, 'status': 'unknown', 'why': 'time limit of the check reached', 'cfgs': cfgs, 'clause': c} for c in sorted(cids)], 'fails': [], 'called': [], 'inlined': [],
            'samples': [], 'errors': ['time limit of the check reached'], 'groups': 0, 'tv': 0, 'tvbad': [], 'wall': 0.0}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--fn'); ap.add_argument('--cfg'); ap.add_argument('--no-build', action='store_true'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--dump')
    a = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    specs.load()
    names = a.cfg.split(',') if a.cfg else build.DEFAULT
    skipped = {}
    variant = 'na' if a.prop == 'C19' else ''    # safety: debug assertions (precondition checks) compiled out, overflow checks kept
    if a.no_build: builds = build.existing(names, variant)
    else: builds, skipped = build.build_all(names, variant)
    if 'sse2' not in builds and not a.cfg:
        print('BUILD-ERROR: ' + skipped.get('sse2', '')); return 2
    global WORLD
    WORLD = verify.World(builds)
    cfgs = list(builds)
    tb = time.time() - t0
    todo = {}; own = set()
    for c in spec.PROPS.get(a.prop, []):
        if a.fn and c.fname not in a.fn.split(','): continue
        todo.setdefault(c.fname, set()).add(c.id); own.add(c.id)
    if not todo: print('no contracts for ' + a.prop); return 2
    results = []; limit = 660.0 if tier == 'quick' else 4 * 3600.0
    seen = set()
    ctx = mp.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=60) as pool:
        pend = []
        def submit(n, ids):
            ids = {i for i in ids if i not in seen}
            if not ids: return
            seen.update(ids)
            solo = {c.id for c in spec.CLAUSES[n] if c.opts.get('own_job')} & ids
            for g in [{i} for i in sorted(solo)] + ([ids - solo] if ids - solo else []): pend.append((pool.apply_async(worker, ((n, g, tier, seed, cfgs),)), (n, g, cfgs)))
        order = sorted(todo, key=lambda n: -max(c.opts.get('cost', 0) for c in spec.CLAUSES[n]))
        for n in order: submit(n, todo[n])
        hit = None; dropped = 0
        while pend:
            # collect what is ready; once a failing input is known the rest gets two more minutes
            ready = [q for q in pend if q[0].ready()]
            now = time.time() - t0; stop = now > min(limit, (hit + 120.0) if hit is not None else limit)
            if not ready and not stop: time.sleep(0.02); continue
            for q in (pend[:] if stop else ready):
                pend.remove(q)
                if q[0].ready(): r = q[0].get()
                elif hit is not None: dropped += 1; continue
                else: r = late(*q[1])
                results.append(r)
                if r['fails'] and hit is None: hit = time.time() - t0
                if a.v: print('%-40s %5.1fs %s' % (r['fn'], r['wall'], {s: sum(o['status'] == s for o in r['oblig']) for s in ('proved', 'refuted', 'unknown')}), [o.get('why') for o in r['oblig'] if o['status'] != 'proved'][:1], r['fails'][:1] and r['fails'][0]['why'], r['errors'][:1], r['tvbad'])
                if not a.fn:
                    for cn in r['called']:
                        s = WORLD.subs.get(cn)
                        if s: submit(cn, {s.c.id})
        results.sort(key=lambda r: r['fn'])
        if dropped: print('%d jobs not finished after a failing input was found' % dropped)
    if a.prop == 'C19' and any(o['status'] not in ('proved', 'bounded') for r in results for o in r['oblig']): concretise(results, seed, t0)
    return report(a, tier, seed, results, cfgs, skipped, own, t0, tb)

def load_json(p, d):
    try: return json.load(open(p))
    except FileNotFoundError: return d

def report(a, tier, seed, results, cfgs, skipped, own, t0, tb):
    from xmv import evidence
    return evidence.report(HERE, a, tier, seed, results, cfgs, skipped, own, t0, tb)

if __name__ == '__main__': sys.exit(main())
