#!/usr/bin/env python3
"""Plant bugs: mk(...) makes a scratch copy of /repo, applies the edits, checks that it compiles, passes the stable tests and
that the demonstration tells the two apart, and writes seeded/<id>/.  Usage: mkseed.py FILE.py (a list of mk(...) calls)."""
import os, subprocess, sys, shutil, json, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
directx_math = { path = "$PWD"%s }
[workspace]
EOF
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-C target-cpu=x86-64%s" cargo %s run --offline -q
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(W + '/repo'): sh('cp -a /repo %s/repo' % W)
    sh('git -C %s/repo fetch -q /repo HEAD && git -C %s/repo reset -q --hard FETCH_HEAD' % (W, W))
    for f in ('build.sh', 'test.sh'): open(W + '/' + f, 'w').write(open('/opt/vp/' + f).read().replace('/repo', W + '/repo'))
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if os.path.exists('/opt/vp/BASELINE.json') else set()
def mk(id, prop, edits, main, needs, breaks, flags='', feats='', tool='', force=False):
    d = os.path.join(V, 'seeded', id)
    if os.path.exists(d) and not force: return
    fresh(); r = W + '/repo'
    for f, old, new, *nth in edits:
        p = '%s/src/%s' % (r, f); s = open(p).read()
        n = s.count(old)
        if nth:
            k = nth[0]; i = -1
            for _ in range(k + 1): i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        else:
            if n != 1: print(id, 'EDIT matches %d times in %s' % (n, f)); return
            s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = sh('git -C %s diff' % r).stdout
    tmp = tempfile.mkdtemp(); open(tmp + '/main.rs', 'w').write('#![allow(non_snake_case, unused, non_upper_case_globals)]\nuse directx_math::*;\n' + main)
    open(tmp + '/demo.sh', 'w').write(DEMO % (', features = [%s]' % ', '.join('"%s"' % x for x in feats.split(',')) if feats else '', ' -C target-feature=' + flags if flags else '', tool))
    b = sh('bash %s/build.sh' % W)
    if b.returncode: print(id, 'DOES NOT BUILD', b.stdout[-1500:]); return
    sh('bash %s/test.sh %s/o.json' % (W, W))
    got = set(json.load(open(W + '/o.json'))['passed'])
    if BASE - got: print(id, 'TESTS FAIL', sorted(BASE - got)[:5]); return
    x = sh('bash %s/demo.sh' % tmp, cwd=r)
    y = sh('bash %s/demo.sh' % tmp, cwd='/repo')
    if x.returncode == 0 or y.returncode: print(id, 'DEMO patched rc=%d, clean rc=%d' % (x.returncode, y.returncode), x.stdout[-1200:] if y.returncode == 0 else y.stdout[-1500:]); return
    if 'could not compile' in x.stdout: print(id, 'DEMO does not compile', x.stdout[-800:]); return
    os.makedirs(d, exist_ok=True)
    for f in ('main.rs', 'demo.sh'): shutil.copy(tmp + '/' + f, d + '/' + f)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(id, 'ok')
if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    shutil.rmtree(W + '/repo', ignore_errors=True)
