"""Build /repo's current source (through the harness crate) for each cfg configuration,
emitting LLVM IR for the verifier and the native replay binary."""
import os, subprocess, glob, concurrent.futures as cf, hashlib, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('XMV_BUILD', os.path.join(HERE, '.build'))

# name -> (toolchain, target features, cargo features)
CONFIGS = {
    'sse2':     ('stable', '', ''),
    'nointr':   ('stable', '', 'no_intrinsics'),
    'sse3':     ('stable', '+sse3', ''),
    'sse4':     ('stable', '+sse3,+sse4.1', ''),
    'avx':      ('stable', '+sse3,+sse4.1,+avx', ''),
    'f16c':     ('stable', '+sse3,+sse4.1,+avx,+f16c', ''),
    'fma':      ('stable', '+sse3,+sse4.1,+avx,+f16c,+fma', ''),
    'avx2':     ('stable', '+sse3,+sse4.1,+avx,+f16c,+fma,+avx2', ''),
    'spec':     ('nightly', '', 'no_intrinsics,specialization'),
    'intel':    ('stable', '+sse3,+sse4.1,+avx', 'favor_intel'),
}
DEFAULT = list(CONFIGS)
IMPLIES = {'sse': [], 'sse2': ['sse'], 'sse3': ['sse2'], 'ssse3': ['sse3'], 'sse4.1': ['ssse3'], 'sse4.2': ['sse4.1', 'popcnt', 'crc32'], 'avx': ['sse4.2', 'xsave'], 'f16c': ['avx'], 'fma': ['avx'], 'avx2': ['avx']}
def cpu(name):
    """instruction sets the configuration may use"""
    todo = ['sse2', 'fxsr', 'x87', 'cmov', 'cx8', 'mmx'] + [x[1:] for x in CONFIGS[name][1].split(',') if x]; r = set()
    while todo:
        f = todo.pop()
        if f not in r: r.add(f); todo += IMPLIES.get(f, [])
    return frozenset(r)

class BuildError(Exception): pass

def find_ll(td, prefix):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(td, 'debug')) for f in fs if f.startswith(prefix) and f.endswith('.ll'))

VARIANT = {'': '', 'na': ' -Cdebug-assertions=off -Coverflow-checks=on'}
def build(name, variant=''):
    tc, tf, feats = CONFIGS[name]
    td = os.path.join(BUILD, name + variant)
    env = dict(os.environ)
    rf = '-C target-cpu=x86-64 -Ccodegen-units=1 -Cdebuginfo=0 --emit=llvm-ir,link --cap-lints=allow' + VARIANT[variant]
    if tf: rf += ' -C target-feature=' + tf
    env['RUSTFLAGS'] = rf
    env['CARGO_TARGET_DIR'] = td
    env.pop('CARGO_ENCODED_RUSTFLAGS', None); env.pop('RUSTUP_TOOLCHAIN', None)
    env['CARGO_NET_OFFLINE'] = 'true'
    cmd = ['cargo', '+' + tc, 'build', '--offline', '--manifest-path', os.path.join(HERE, 'harness', 'Cargo.toml')]
    if feats: cmd += ['--features', feats]
    # always rebuild directx_math from the current tree
    shutil.rmtree(td, ignore_errors=True)
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('build of configuration %s failed:\n%s' % (name, p.stdout[-6000:]))
    lls = find_ll(td, 'xmvh-') + find_ll(td, 'directx_math-')
    if len(lls) < 2: raise BuildError('configuration %s: IR not found' % name)
    return {'name': name, 'll': lls, 'bin': os.path.join(td, 'debug', 'xmvrun')}

def build_asan(name):
    """the same code with the address sanitizer (nightly): used to find a concrete failing input for an open memory obligation"""
    _, tf, feats = CONFIGS[name]; td = os.path.join(BUILD, name + 'asan'); env = dict(os.environ)
    env['RUSTFLAGS'] = '-Zsanitizer=address -C target-cpu=x86-64 -Cdebuginfo=0 --cap-lints=allow -Cdebug-assertions=off -Coverflow-checks=on' + (' -C target-feature=' + tf if tf else '')
    env['CARGO_TARGET_DIR'] = td; env['CARGO_NET_OFFLINE'] = 'true'
    env.pop('CARGO_ENCODED_RUSTFLAGS', None); env.pop('RUSTUP_TOOLCHAIN', None)
    shutil.rmtree(td, ignore_errors=True)
    cmd = ['cargo', '+nightly', 'build', '--offline', '--target', 'x86_64-unknown-linux-gnu', '--manifest-path', os.path.join(HERE, 'harness', 'Cargo.toml')]
    if feats: cmd += ['--features', feats]
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
    if p.returncode: raise BuildError(p.stdout[-2000:])
    return os.path.join(td, 'x86_64-unknown-linux-gnu', 'debug', 'xmvrun')

def _try(n, variant=''):
    try: return n, build(n, variant), None
    except BuildError as e: return n, None, str(e)

def build_all(names=None, variant=''):
    """-> ({config: build}, {config: error text}) ; a configuration that does not compile is left out and reported"""
    names = names or DEFAULT
    os.makedirs(BUILD, exist_ok=True)
    ok = {}; bad = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for n, r, e in ex.map(lambda n: _try(n, variant), names):
            if r: ok[n] = r
            else: bad[n] = e
    return ok, bad

def existing(names=None, variant=""):
    out = {}
    for n in names or DEFAULT:
        td = os.path.join(BUILD, n + variant)
        out[n] = {'name': n, 'll': find_ll(td, 'xmvh-') + find_ll(td, 'directx_math-'), 'bin': os.path.join(td, 'debug', 'xmvrun')}
    return out
