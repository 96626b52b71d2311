"""Mutation campaign: mutate.py N SEED [path filter] : random single-token mutants of /repo's sources, each tried against the checks
until one reports a violation.  Survivors are listed with their change, for inspection by hand."""
import json, os, random, re, subprocess, sys, shutil, concurrent.futures as cf, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
N, SEED = int(sys.argv[1]), sys.argv[2]
FILT = sys.argv[3] if len(sys.argv) > 3 else ''
J = int(os.environ.get('J', '6'))
ALL = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
SWAP = {'+': '-', '-': '+', '*': '/', '/': '*', '<': '<=', '>': '>=', '<=': '<', '>=': '>', '&&': '||', '||': '&&'}
METH = {'sinh': 'cosh', 'cosh': 'sinh', 'tanh': 'sinh', 'exp': 'exp_m1', 'ln': 'exp', 'sqrt': 'cbrt', 'sin': 'cos', 'cos': 'sin', 'abs': 'signum', 'erf': 'erfc', 'min': 'max', 'max': 'min', 'sum': 'product', 'ceil': 'floor', 'floor': 'ceil'}


def sites(text, lang):
    out = []
    code = re.sub(r'//[^\n]*|#\[[^\]]*\]|"(?:[^"\\]|\\.)*"', lambda m: ' ' * len(m.group(0)), text) if lang == 'rs' else re.sub(r'#[^\n]*|"""(?s:.*?)"""|"(?:[^"\\\n]|\\.)*"', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text)
    for m in re.finditer(r'(?<![\w.])(\d+\.\d+(?:e-?\d+)?|\d+)(?![\w.(])', code):
        s = m.group(1)
        if '.' in s:
            new = str(float(s) * 1.01 + (0.01 if float(s) == 0 else 0)) if random.random() < 0.7 else str(float(s) + 1)
        else:
            new = str(int(s) + 1)
        out.append((m.start(1), m.end(1), new))
    for m in re.finditer(r'(?<=[\w)\]])\s?(\+|-|\*|/|<=|>=|<|>|&&|\|\|)\s?(?=[\w(&*])', code):
        op = m.group(1)
        if op in ('<', '>') and (lang == 'rs' and not re.match(r'\s', code[m.start():m.start() + 1] or 'x')):
            continue
        out.append((m.start(1), m.end(1), SWAP[op]))
    for m in re.finditer(r'\.(\w+)\(', code):
        if m.group(1) in METH:
            out.append((m.start(1), m.end(1), METH[m.group(1)]))
    # one name of an argument list for another
    for m in re.finditer(r'\(((?:&?(?:self\.)?[a-z_]\w*,\s*)+&?(?:self\.)?[a-z_]\w*)\)', code):
        parts = [p.strip() for p in m.group(1).split(',')]
        if len(set(parts)) > 1:
            i = random.randrange(len(parts) - 1)
            parts[i], parts[i + 1] = parts[i + 1], parts[i]
            out.append((m.start(1), m.end(1), ', '.join(parts)))
    # a called function for its neighbour
    for m in re.finditer(r'\b(nondimensional_(?:relative_)?\w+|(?:relative_)?(?:gibbs|helmholtz)\w+)\(', code):
        w = m.group(1)
        n = w.replace('relative_', '') if 'relative_' in w else w[:-9] if w.endswith('_per_link') else w + '_per_link' if w.endswith('energy') else None
        if n and not code[:m.start()].rstrip().endswith('fn'):
            out.append((m.start(1), m.end(1), n))
    return out


def main():
    random.seed(SEED)
    files = []
    for d, ds, fs in os.walk('/repo/src'):
        for f in fs:
            p = os.path.join(d, f)
            if 'test' in f or not f.endswith(('.rs', '.jl')) or FILT not in p:
                continue
            files.append(p)
    muts = []
    tries = 0
    while len(muts) < N and tries < 50 * N:
        tries += 1
        p = random.choice(files)
        s = open(p, newline='').read()
        lang = p.rsplit('.', 1)[1]
        cut = s.find('#[cfg(test)]\nmod test')
        st = sites(s, lang)
        if not st:
            continue
        if random.random() > min(1, len(st) / 12):
            continue
        a, b, new = random.choice(st)
        if s[a:b] == new:
            continue
        muts.append((p, a, b, new, s))
    slots = queue.Queue()
    for i in range(J):
        slots.put(i)

    def go(k):
        p, a, b, new, s = muts[k]
        i = slots.get()
        try:
            w = '/tmp/mt.'+str(os.getpid())+'/%d' % i
            os.makedirs(w, exist_ok=True)
            subprocess.run(['rsync', '-a', '--delete', '--exclude=/.git', '--exclude=/target', '--exclude=/data', '--exclude=/pages', '--exclude=/docs', '/repo/', w + '/'], check=True)
            open(w + p[5:], 'w', newline='').write(s[:a] + new + s[b:])
            la, lb = s.rfind('\n', 0, a) + 1, s.find('\n', b)
            line = s[:a].count('\n') + 1
            desc = '%s:%d: %r -> %r in: %s' % (p[10:], line, s[a:b], new, s[la:lb].strip()[:150])
            order = ALL[:]
            first = []
            if '/constitutive/' in p:
                first = ['F01', 'F02', 'F03']
            elif '/math/' in p:
                first = ['G01', 'G02', 'G03']
            elif 'monte_carlo' in p:
                first = ['E01', 'E02']
            elif p.endswith('.jl'):
                first = ['A02']
            elif p.endswith('ex.rs'):
                first = ['A01']
            elif p.endswith('py.rs'):
                first = ['A03', 'A04']
            else:
                first = ['C06', 'C04', 'C03', 'C02', 'B01', 'B02', 'C07', 'C11', 'C05', 'C10', 'C01']
            order = first + [x for x in order if x not in first]
            if '/math/' not in p:
                order.remove('G03')
            env = dict(os.environ, PV_REPO=w, PV_WORK='/tmp/mt.'+str(os.getpid())+'/work%d' % i, PV_EVIDENCE='/tmp/mt.'+str(os.getpid())+'/ev%d' % i)
            for c in order:
                try:
                    r = subprocess.run(['python3-vt', V + '/check.py', c], cwd=V, env=env, capture_output=True, text=True, timeout=880)
                except subprocess.TimeoutExpired:
                    return 'TIMEOUT ' + c, desc
                out = r.stdout + r.stderr
                if 'does not compile' in out or 'error[E' in out or 'could not compile' in out or 'build failed' in out:
                    return 'nocompile', desc
                if r.returncode == 1 and 'VIOLATION' in out:
                    return 'killed ' + c, desc
                if r.returncode:
                    return 'ERROR %s %s' % (c, out[-300:]), desc
            return 'SURVIVED', desc
        finally:
            slots.put(i)
    tot = {}
    with cf.ThreadPoolExecutor(J) as ex:
        for f in cf.as_completed([ex.submit(go, k) for k in range(len(muts))]):
            try:
                v, d = f.result()
            except Exception as e:
                v, d = 'EXC %r' % e, ''
            tot[v.split()[0]] = tot.get(v.split()[0], 0) + 1
            print(v, '|', d)
            sys.stdout.flush()
    print('TOTAL', tot)


main()
