"""Verdict, replay files and evidence."""
import os, json, time, sys

TRUSTED = [
 'rustc 1.99.1 / 1.101-nightly front end up to unoptimised LLVM IR (debug assertions and overflow checks on)',
 'xmv symbolic executor (IR semantics, memory model, path merging), validated on every run against the native code',
 'term simplifier, polynomial identity checker and case splitter of xmv',
 'z3 4.15 (bit-vector/floating-point and nlsat), cvc5 1.1.2',
 'models of x86 SSE/AVX/F16C/FMA intrinsics as given by LLVM IR and the intrinsic table in exec.py',
 'the contracts in /verif/specs',
]

def load_json(p, d):
    try: return json.load(open(p))
    except FileNotFoundError: return d

def base_id(o):
    return o['id']

def report(here, a, tier, seed, results, cfgs, skipped, own, t0, tb):
    prop = a.prop
    und = load_json(os.path.join(here, 'undischarged.json'), {})
    known = load_json(os.path.join(here, 'known_findings.json'), {'findings': []})['findings']
    undset = set(und.get('obligations', []))
    ob = [o for r in results for o in r['oblig']]
    fails = [f for r in results for f in r['fails']]
    proved = [o for o in ob if o['status'] == 'proved']
    openo = [o for o in ob if o['status'] != 'proved']
    bounded = [o for o in openo if o['id'] in undset or o['status'] == 'bounded']
    newopen = [o for o in openo if o['id'] not in undset and o['status'] != 'bounded']
    if a.dump:
        json.dump(sorted({o['id'] for o in openo}), open(a.dump, 'w'), indent=0)
    viol = []
    os.makedirs(os.path.join(here, 'replay'), exist_ok=True)
    printed = set()
    for f in fails:
        kf = [k for k in known if k['property'] == prop and k.get('status') == 'open' and k['function'] == f['function'] and (not k.get('clause') or k['clause'] == f['clause'])]
        if kf:
            if kf[0]['what'] not in printed: print('KNOWN-FINDING: property=%s %s' % (prop, kf[0]['what'])); printed.add(kf[0]['what'])
            continue
        viol.append((f['function'], f, True))
    done = {v[0] for v in viol}
    for o in newopen:
        fn = o['clause'].split('/')[0]
        if fn in done: continue
        if any(k['property'] == prop and k.get('status') == 'open' and k['function'] == fn for k in known): continue
        done.add(fn)
        viol.append((fn, {'function': fn, 'obligation': o['id'], 'status': o['status'], 'why': o.get('why'), 'configs': o['cfgs'], 'verifier_model': o.get('model')}, False))
    for fn, f, hard in viol[:40]:
        p = os.path.join(here, 'replay', '%s_%s.json' % (prop, fn))
        f = dict(f); f['property'] = prop
        f['failed_obligations'] = [o for o in openo if o['clause'].split('/')[0] == fn][:20]
        f['rerun'] = 'cd /verif && VERIF_SEED=%d python3-vt check.py %s --fn %s -v' % (seed, prop, fn)
        json.dump(f, open(p, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if hard else ' no-failing-input-found'))
        print('  %s: %s' % (fn, f.get('why')))
    fns = sorted({r['fn'] for r in results})
    how = {}
    for o in proved: how[o.get('how') or '?'] = how.get(o.get('how') or '?', 0) + 1
    evals = sum(s['evals'] for r in results for s in r['samples'])
    smtt = {k: round(sum(r['smt'][k] for r in results if 'smt' in r), 3) for k in ('z3_calls', 'z3_time', 'cvc5_calls', 'cvc5_time')}
    vac = sorted({s['clause'] for r in results for s in r['samples'] if s.get('req_ok') == 0})
    modes = sorted({c for c in own})
    from . import spec
    md = {}
    for r in results:
        for c in spec.CLAUSES.get(r['fn'], []): md[c.mode] = md.get(c.mode, 0) + 1
    assume = ['machine arithmetic is idealised to real arithmetic (finite inputs, no overflow/rounding) in `real`/`rel` clauses; bit-precise in `bits`/`exact`/`relx` clauses',
              'libm functions (sinf, cosf, ...) are uninterpreted or taken as the mathematical function',
              'rcpps/rsqrtps are modelled with relative error at most 1.5*2^-12']
    for k, v in skipped.items(): assume.append('configuration %s did not build and was not checked' % k)
    cov = {'obligations': len(ob), 'discharged': len(proved), 'checker_cmd': 'VERIF_TIER=%s VERIF_SEED=%d python3-vt /verif/check.py %s' % (tier, seed, prop), 'trusted_base': TRUSTED,
           'functions_under_contract': len(fns), 'functions': fns, 'contracts_of_this_property': len(own), 'callee_contracts_used': sorted({c for r in results for c in r['called']}),
           'functions_stepped_into': len({c for r in results for c in r['inlined']}),
           'configurations': cfgs, 'distinct_vc_groups': sum(r['groups'] for r in results), 'discharged_by': how, 'clause_modes': md, 'solver': smtt,
           'bounded_stand_ins': sorted({o['id'] + ' [' + (o.get('why') or '')[:120] + ']' for o in bounded}), 'bounded_rule': 'undischarged obligations are replaced by running the real code on generated inputs (bound: the evaluations of this run) against the contract',
           'evaluations': evals, 'distinct_inputs': sum(s.get('distinct', 0) for r in results for s in r['samples']), 'executor_vs_native_runs': sum(r['tv'] for r in results), 'executor_vs_native_mismatch': sorted({r['fn'] for r in results if r['tvbad']}),
           'vacuous_preconditions': vac, 'outside_verifier': sorted({e[:200] for r in results for e in r['errors']})[:40],
           'slowest': sorted([(round(r['wall'], 1), r['fn']) for r in results], reverse=True)[:8]}
    rd = [x for r in results for x in r.get('rounding', [])]
    if rd:
        okr = [x for x in rd if len(x) == 5]; nor = [x for x in rd if len(x) == 4]; why = {}
        for x in nor: why[x[3]] = why.get(x[3], 0) + 1
        cov['rounding_bounds'] = {'rule': '|result - contract| <= ratio * gamma_k * (sum of the absolute monomials of the contract) * prod(1 + 2 cond(divisor or radicand)), gamma_k = k u/(1 - k u), u = 2^-24; derived from the code\'s own operations (standard model; no overflow/underflow; |angles| <= 1000)',
            'outputs_proved': len(okr), 'max_k': max([x[3] for x in okr], default=0), 'max_ratio': max([x[4] for x in okr], default=0), 'functions_with_all_outputs_proved': sorted({x[0].split('/')[0] for x in okr} - {x[0].split('/')[0] for x in nor}),
            'outputs_not_proved (sampled only)': len(nor), 'reasons': why, 'functions_not_proved': sorted({x[0].split('/')[0] for x in nor})}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': assume, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if not a.fn and not a.cfg:
        os.makedirs(os.path.join(here, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(here, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d bounded, %d open; %d functions, %d configurations, %d native evaluations; build %.1fs total %.1fs' % (
        prop, len(ob), len(proved), len(bounded), len(newopen), len(fns), len(cfgs), evals, tb, time.time() - t0))
    if viol: return 1
    if vac: print('VACUOUS precondition: %s' % vac); return 2
    if not proved: print('no obligation discharged'); return 2
    return 1 if viol else 0
