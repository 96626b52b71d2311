"""Trial bugs without a demonstration yet: plant.py [-j N] FILE.py [name ...]   FILE defines B = {name: (property, [(file, old, new), ...])};
each is applied to a scratch copy of /repo and its property's check (and, with --all, every check) is run on it."""
import json, os, re, subprocess, sys, concurrent.futures as cf, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = '/tmp/pl.%d' % os.getpid()
ALL = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]


def main():
    a = sys.argv[1:]
    j, everything = 6, False
    while a and a[0].startswith('-'):
        o = a.pop(0)
        if o == '-j':
            j = int(a.pop(0))
        elif o == '--all':
            everything = True
    ns = {}
    exec(open(a.pop(0)).read(), ns)
    B = ns['B']
    names = a or list(B)
    slots = queue.Queue()
    for i in range(j):
        slots.put(i)

    def go(n):
        i = slots.get()
        try:
            prop, edits = B[n]
            w = ROOT + '/%d' % i
            os.makedirs(w, exist_ok=True)
            subprocess.run(['rsync', '-a', '--delete', '--exclude=/.git', '--exclude=/target', '--exclude=/data', '--exclude=/pages', '--exclude=/docs', '/repo/', w + '/'], check=True)
            for f, old, new in edits:
                p = os.path.join(w, f)
                s = open(p, newline='').read()
                nl = '\r\n' if '\r\n' in s else '\n'
                o2, n2 = old.replace('\n', nl), new.replace('\n', nl)
                if s.count(o2) != 1:
                    return n, 'EDIT %d matches in %s' % (s.count(o2), f)
                open(p, 'w', newline='').write(s.replace(o2, n2))
            env = dict(os.environ, PV_REPO=w, PV_WORK=ROOT + '/work%d' % i, PV_EVIDENCE=ROOT + '/ev%d' % i)
            res = []
            for c in [prop] + ([x for x in ALL if x != prop] if everything else []):
                r = subprocess.run(['python3-vt', V + '/check.py', c], cwd=V, env=env, capture_output=True, text=True)
                o = r.stdout + r.stderr
                if 'does not type-check' in o:
                    return n, 'NO COMPILE ' + ' | '.join(re.findall(r'error(?:\[E\d+\])?: .*', o)[:2])
                if r.returncode:
                    l = [x for x in o.splitlines() if x and 'obligations' not in x and 'KNOWN' not in x and 'VIOLATION prop' not in x]
                    res.append('%s CAUGHT %s' % (c, (l or [''])[0][:200]))
                elif c == prop:
                    res.append('%s MISSED %s' % (c, ' '.join(re.findall(r'\d+ undecided', o))))
            return n, '; '.join(res)
        except Exception as e:
            return n, 'EXC %r' % e
        finally:
            slots.put(i)
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(go, n) for n in names]):
            print('==', *f.result(), flush=True)
    subprocess.run(['rm', '-rf', ROOT])


main()
