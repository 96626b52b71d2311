"""Helper used by hand to lay down a planted bug: make(id, property, [(file, old, new)], demo, needs, breaks, features)."""
import json, os, shutil, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(sid, prop, edits, demo, needs, breaks, mode='rs', features=''):
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seedwt'
    subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w], capture_output=True)
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w, 'HEAD'], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p, newline='').read()
            nl = '\r\n' if '\r\n' in s else '\n'
            old, new = old.replace('\n', nl), new.replace('\n', nl)
            assert s.count(old) == 1, (f, s.count(old), old[:80])
            open(p, 'w', newline='').write(s.replace(old, new))
        out = subprocess.run(['git', '-C', w, 'diff', '--binary'], capture_output=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(out)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w], capture_output=True)
    if mode != 'raw':
        shutil.copy(os.path.join(V, 'tools', 'demo_run.sh'), os.path.join(d, 'run.sh'))
        env = 'DEMO_PYTHON=1 ' if mode == 'py' else ('DEMO_FEATURES="--features %s" ' % features if features else '')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\n%sbash "$d/run.sh" "$d"\n' % env)
        open(os.path.join(d, 'demo.' + mode), 'w').write(demo)
    else:
        for n, x in demo.items():
            open(os.path.join(d, n), 'w').write(x)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    subprocess.run(['chmod', '+x', os.path.join(d, 'demo.sh')])
    print('made', sid)
