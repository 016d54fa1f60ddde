"""Compile /repo's current working tree with the mirdump rustc driver and return the dumps.

Nothing of the program is executed: cargo *checks* the workspace, and the driver writes the
type-resolved monomorphised MIR of every workspace crate as JSON.  Results are cached under
.build/dumps/<hash of all sources>, so an unchanged tree is compiled once."""
import os, subprocess, hashlib, json, shutil, fcntl, glob, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
WS = 'ephemeral_vrf,ephemeral_vrf_api,ephemeral_vrf_program,ephemeral_vrf_sdk,ephemeral_vrf_sdk_vrf_macro,vrf_oracle,vrf_cli,macro_consumer'
DRIVER = os.path.join(BUILD, 'driver/release/mirdump')

class BuildFailed(Exception):
    pass

def env():
    e = dict(os.environ)
    e['HOME'] = e.get('HOME') or '/root'
    e['PATH'] = '/root/.cargo/bin:' + e['PATH']
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTC_WRAPPER', 'RUSTFLAGS', 'SBF_OUT_DIR', 'BPF_OUT_DIR', 'CARGO_PROFILE_DEV_DEBUG'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false', CARGO_PROFILE_DEV_OVERFLOW_CHECKS='true')
    return e

def run(cmd, e, cwd, what):
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildFailed('%s failed (%d):\n%s' % (what, p.returncode, p.stdout[-4000:]))
    return p.stdout

def sysroot_lib(e):
    return run(['rustc', '+nightly', '--print', 'sysroot'], e, '/', 'rustc').strip() + '/lib'

def files_under(root):
    for d, dirs, fs in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ('target', '.git', 'node_modules', 'test-ledger'))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith('.rs') or os.path.isfile(p) and not os.path.islink(p) and os.path.getsize(p) < 2000000 and '/.git/' not in p:
                yield p

def tree_hash(root):
    h = hashlib.sha256()
    for p in files_under(root):
        h.update(os.path.relpath(p, root).encode()); h.update(b'\0')
        h.update(hashlib.sha256(open(p, 'rb').read()).digest())
    return h.hexdigest()

def build_driver():
    e = env()
    src = tree_hash(os.path.join(VERIF, 'driver'))
    stamp = os.path.join(BUILD, 'driver.stamp')
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == src:
        return
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
    run(['cargo', '+nightly', 'build', '--release', '--offline'], e, os.path.join(VERIF, 'driver'), 'driver build')
    open(stamp, 'w').write(src)

CONFIGS = {
    'workspace': ['--workspace'],
    'sdk-backward-compat': ['-p', 'ephemeral-vrf-sdk', '--features', 'backward-compat'],
    'sdk-anchor': ['-p', 'ephemeral-vrf-sdk', '--features', 'anchor'],
    'sdk-anchor-compat': ['-p', 'ephemeral-vrf-sdk', '--features', 'anchor-compat'],
    'macro-modern': None,
    'macro-compat': None,
}

def extract(config='workspace'):
    """returns the directory holding the dumps for `config` of the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_driver()
        key = hashlib.sha256((tree_hash(REPO) + open(os.path.join(VERIF, 'engine/fixture.py')).read() + open(os.path.join(BUILD, 'driver.stamp')).read() + REPO).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, 'dumps', key, config)
        if os.path.exists(os.path.join(out, 'DONE')):
            return out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        e = env()
        e['LD_LIBRARY_PATH'] = sysroot_lib(e)
        e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'target')
        e['RUSTC_WORKSPACE_WRAPPER'] = DRIVER
        e['MIRDUMP_OUT'] = out
        e['MIRDUMP_WS'] = WS
        # never trust cargo's mtime freshness for the workspace's own crates
        for d in glob.glob(os.path.join(BUILD, 'target/debug/build/ephemeral-vrf*')) + \
                 glob.glob(os.path.join(BUILD, 'target/debug/.fingerprint/ephemeral-vrf*')) + glob.glob(os.path.join(BUILD, 'target/debug/.fingerprint/macro-consumer*')):
            shutil.rmtree(d, ignore_errors=True)
        if CONFIGS[config] is None:
            import fixture
            src = os.path.join(BUILD, 'fixture', config)
            fixture.write(src, config.split('-')[1], REPO)
            run(['cargo', '+nightly', 'check', '--offline'], e, src, 'cargo check (%s)' % config)
        else:
            run(['cargo', '+nightly', 'check', '--offline', '--locked'] + CONFIGS[config], e, REPO, 'cargo check (%s)' % config)
        open(os.path.join(out, 'DONE'), 'w').write('ok')
        # keep the cache small
        ds = sorted(glob.glob(os.path.join(BUILD, 'dumps/*')), key=os.path.getmtime)
        for d in ds[:-6]:
            if os.path.basename(d) != key:
                shutil.rmtree(d, ignore_errors=True)
        return out
    finally:
        lock.close()

_cache = {}
def load(name, config='workspace'):
    k = (name, config)
    if k not in _cache:
        p = os.path.join(extract(config), name + '.json')
        if not os.path.exists(p):
            raise BuildFailed('the build of %s produced no MIR dump %s' % (config, name))
        _cache[k] = json.load(open(p))
    return _cache[k]

if __name__ == '__main__':
    for c in (sys.argv[1:] or CONFIGS):
        print(c, extract(c))
