"""Build the analysed program from /repo's current working tree: scratch copy -> rustc front end (our driver)
-> resolved, type-checked HIR as JSON."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
WORK = os.environ.get('PV_WORK', os.path.join(VERIF, '.work'))
SKIP_DIRS = {'.git', 'target', '__pycache__', 'data', 'pages', 'docs'}


class PrepError(Exception):
    pass


def tree_files(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in SKIP_DIRS)
        for f in sorted(fs):
            out.append(os.path.relpath(os.path.join(d, f), root))
    return out


def tree_hash(root, extra=()):
    h = hashlib.sha256()
    for f in tree_files(root):
        if f.endswith(('.rs', '.toml', '.lock', '.jl', '.py', '.md')):
            h.update(f.encode() + b'\0')
            with open(os.path.join(root, f), 'rb') as fh:
                h.update(fh.read())
    for p in extra:
        with open(p, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    e['HOME'] = e.get('HOME') or '/root'
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN', 'RUSTC_WORKSPACE_WRAPPER',
              'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET_DIR'):
        e.pop(k, None)
    return e


def run(cmd, cwd, e, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def build_driver():
    drv = os.path.join(VERIF, 'driver')
    tgt = os.path.join(WORK, 'driver-target')
    e = env()
    e['CARGO_TARGET_DIR'] = tgt
    rc, out = run(['cargo', '+nightly', 'build', '--release', '--offline', '--quiet'], drv, e)
    if rc:
        raise PrepError('driver build failed:\n' + out[-4000:])
    return os.path.join(tgt, 'release', 'hirdump')


def sysroot():
    rc, out = run(['rustc', '+nightly', '--print', 'sysroot'], '/', env())
    return out.strip().splitlines()[-1]


EXCL = ('efjc', 'efrc')


def make_scratch(dst, mode):
    shutil.copytree(REPO, dst, ignore=lambda d, ns: [n for n in ns if n in SKIP_DIRS or (n in ('tests', 'examples', 'benches') and os.path.abspath(d) == os.path.abspath(REPO))], symlinks=True)
    cargo = os.path.join(dst, 'Cargo.toml')
    if mode == 'stub':
        with open(cargo, 'a') as f:
            f.write('\n[patch.crates-io]\nrand_distr = { path = "%s" }\n' % os.path.join(VERIF, 'stubs', 'rand_distr'))
    elif mode == 'leave-out':
        for m in EXCL:
            p = os.path.join(dst, 'src/physics/single_chain', m, 'thermodynamics/isometric/mod.rs')
            if os.path.exists(p):
                s = open(p).read().replace('pub mod monte_carlo;', '#[cfg(any())] pub mod monte_carlo;')
                open(p, 'w').write(s)
    with open(cargo, 'a') as f:
        f.write('\n')


def dump():
    """Returns (dump dict, mode)."""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = 'v3' + tree_hash(REPO, [os.path.join(VERIF, 'driver/src/main.rs'), os.path.join(VERIF, 'stubs/rand_distr/src/lib.rs')])
        cache = os.path.join(WORK, 'dump-%s.json' % key)
        if os.path.exists(cache):
            d = json.load(open(cache))
            return d
        drv = build_driver()
        sr = sysroot()
        last = ''
        modes = [(m, 'extern,python') for m in ('stub', 'plain', 'leave-out')]
        modes += [('stub', 'extern'), ('stub', 'python'), ('stub', ''), ('leave-out', '')]
        first = None
        for mode, feats in modes:
            scratch = os.path.join(WORK, 'tree')
            shutil.rmtree(scratch, ignore_errors=True)
            make_scratch(scratch, mode)
            out = os.path.join(WORK, 'dump.tmp.json')
            if os.path.exists(out):
                os.unlink(out)
            e = env()
            e['CARGO_TARGET_DIR'] = os.path.join(WORK, 'target')
            e['RUSTC_WORKSPACE_WRAPPER'] = drv
            e['HIRDUMP_OUT'] = out
            e['LD_LIBRARY_PATH'] = sr + '/lib' + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
            e['RUSTFLAGS'] = '-Awarnings'
            # the wrapper is only invoked when cargo considers the crate dirty
            os.utime(os.path.join(scratch, 'src/lib.rs'))
            rc, log = run(['cargo', '+nightly', 'check', '--offline', '--lib', '--features', feats], scratch, e)
            if rc == 0 and os.path.exists(out):
                d = json.load(open(out))
                d['mode'] = mode
                d['key'] = key
                d['features'] = feats
                d['log'] = '' if first is None else first[-3000:]
                for f in os.listdir(WORK):
                    if f.startswith('dump-') and f.endswith('.json'):
                        os.unlink(os.path.join(WORK, f))
                with open(cache + '.tmp', 'w') as fh:
                    json.dump(d, fh, separators=(',', ':'))
                os.replace(cache + '.tmp', cache)
                os.unlink(out)
                shutil.rmtree(scratch, ignore_errors=True)
                return d
            last = log
            if mode == 'leave-out' and first is None:
                first = log
        raise PrepError('the crate does not type-check:\n' + last[-6000:])
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


if __name__ == '__main__':
    d = dump()
    print('mode', d['mode'], 'bodies', len(d['bodies']), 'structs', len(d['structs']), 'mods', len(d['mods']))
