"""Tries planted bugs in scratch copies of /repo: trial.py [-j N] [--checks ID,ID|own|all] ID...
For each: demo on the unchanged tree, demo with the patch, the existing tests with the patch, and the checks with the patch."""
import json, os, subprocess, sys, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings',
           CARGO_PROFILE_DEV_OPT_LEVEL='2', CARGO_PROFILE_TEST_OPT_LEVEL='2', CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_TEST_DEBUG='0', CARGO_INCREMENTAL='1')
SKIP = [x for n in open('/opt/vp/skip.txt').read().split() for x in ('--skip', n)]
KEEP = {}


def sh(cmd, cwd, env=None, t=880):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def copy(dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.run(['rsync', '-a', '--exclude=/.git', '--exclude=/target', '--exclude=/data', '--exclude=/pages', '--exclude=/docs', '/repo/', dst + '/'], check=True)


def tests(tree, target):
    stage = tree + '.test'
    shutil.rmtree(stage, ignore_errors=True)
    shutil.copytree(tree, stage)
    for m in ('efjc', 'efrc'):
        p = stage + '/src/physics/single_chain/%s/thermodynamics/isometric/mod.rs' % m
        s = open(p, newline='').read()
        open(p, 'w', newline='').write(s.replace('\npub mod monte_carlo;', '\n#[cfg(any())] pub mod monte_carlo;'))
        for t in ('tests', 'examples'):
            q = stage + '/%s/%s.rs' % (t, m)
            if os.path.exists(q):
                os.remove(q)
    rc, out = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '4'] + SKIP, stage, dict(ENV, CARGO_TARGET_DIR=target))
    shutil.rmtree(stage, ignore_errors=True)
    failed = sorted(l.split()[1] for l in out.splitlines() if l.startswith('test ') and l.rstrip().endswith('FAILED'))
    n = sum(1 for l in out.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok'))
    return n, failed, ('error: could not compile' in out)


def one(sid, checks, slot, dotests=True):
    d = V + '/seeded/' + sid
    meta = json.load(open(d + '/meta.json'))
    w = '/tmp/tr/%d' % slot
    copy(w)
    msg = []
    if dotests:
        rc, out = sh(['bash', d + '/demo.sh'], w)
        msg.append('base demo %d%s' % (rc, '' if rc == 0 else '\n' + out[-900:]))
    rc, out = sh(['git', 'apply', d + '/patch.diff'], w)
    if rc:
        return sid, ['PATCH DOES NOT APPLY ' + out[-300:]]
    if dotests:
        rc, out = sh(['bash', d + '/demo.sh'], w)
        pan = [l for l in out.splitlines() if 'panicked' in l or 'Assert' in l or l.startswith('error')]
        msg.append('patched demo %d %s' % (rc, pan[:2]))
        n, failed, ce = tests(w, '/tmp/tr/target%d' % slot)
        msg.append('tests: %d ok, failed %s%s' % (n, failed, ' COMPILE ERROR' if ce else ''))
    ids = [meta['property']] if checks == 'own' else checks
    for c in ids:
        rc, out = sh(['python3-vt', V + '/check.py', c], V, dict(os.environ, PV_REPO=w, PV_WORK='/tmp/tr/work%d' % slot, PV_EVIDENCE='/tmp/tr/ev%d' % slot))
        v = [l for l in out.splitlines() if 'VIOLATION' in l or 'undecided' in l.lower()]
        if rc or checks == 'own':
            msg.append('%s exit %d %s' % (c, rc, ' | '.join(l[:260] for l in out.splitlines()[:3])))
    return sid, msg


def main():
    a = sys.argv[1:]
    j, checks, dt = 3, 'own', True
    while a and a[0].startswith('-'):
        o = a.pop(0)
        if o == '-j':
            j = int(a.pop(0))
        elif o == '--notests':
            dt = False
        else:
            c = a.pop(0)
            checks = c if c == 'own' else [p['property'] if 'property' in p else p['id'] for p in json.load(open(V + '/MANIFEST.json'))['checks']] if c == 'all' else c.split(',')
    ids = a or sorted(os.listdir(V + '/seeded'))
    import queue
    slots = queue.Queue()
    for i in range(j):
        slots.put(i)

    def go(sid):
        s = slots.get()
        try:
            return one(sid, checks, s, dt)
        except Exception as e:
            return sid, ['EXC %r' % e]
        finally:
            slots.put(s)
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(go, s) for s in ids]):
            sid, msg = f.result()
            print('==', sid)
            for m in msg:
                print('  ', m)
            sys.stdout.flush()


main()
