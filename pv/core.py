"""Obligations, verdicts, evidence, known findings."""
import hashlib, json, os, re, sys, time, traceback
from . import prep, terms as t, numeric
from .interp import Program, Interp, Give, Dead

VERIF = prep.VERIF
KNOWN = os.path.join(VERIF, 'known_findings')


def known_findings(pid):
    """exact keys of recorded findings of a property: lines 'finding: property=<id> key=<key> -- text'"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s key=' % pid):
                rest = line.split(' key=', 1)[1]
                key, _, text = rest.partition(' -- ')
                out[key.strip()] = text.strip()
    return out


class Report(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = {}            # key -> ('ok'|'bad'|'und', text)
        self.floors = []
        self.notes = []
        self.kinds = {}
        self.samples = []
        self.analysed = set()
        self.extra = {}

    def _put(self, key, st, text, kind):
        old = self.obl.get(key)
        if old is not None and old[0] == 'bad':
            return
        if old is not None and old[0] == 'und' and st == 'ok':
            return
        self.obl[key] = (st, text, kind or key.split(':')[0])

    def ok(self, key, text='', kind=None):
        self._put(key, 'ok', text, kind)
        if len(self.samples) < 6 and text:
            self.samples.append({'obligation': key, 'verdict': 'holds', 'rule': text})

    def bad(self, key, text, kind=None):
        self._put(key, 'bad', text, kind)

    def und(self, key, text='', kind=None):
        self._put(key, 'und', text, kind)

    def put(self, key, verdict, good, bad=None, kind=None):
        last, t.LAST[0] = t.LAST[0], None
        if verdict is True:
            self.ok(key, good, kind)
        elif verdict is False and last is not None and numeric.confirmed(*last) is False:
            self.und(key, 'value numbers differ but the expressions agree wherever they can be evaluated: ' + good, kind)
        elif verdict is False:
            self.bad(key, bad or ('violated: ' + good), kind)
        else:
            self.und(key, 'undecided: ' + good, kind)

    def floor(self, name, n, least):
        """vacuity guard: an analysis that matched fewer instances than confirmed by hand decides nothing"""
        self.floors.append((name, n, least))

    def count(self, st, kind=None):
        return sum(1 for s, _, k in self.obl.values() if s == st and (kind is None or k == kind))

    def finish(self, rule, level='other', assumptions=(), explanation=''):
        kn = known_findings(self.pid)
        bad = {k: v for k, v in self.obl.items() if v[0] == 'bad'}
        known = {k: v for k, v in bad.items() if k in kn}
        new = {k: v for k, v in bad.items() if k not in kn}
        for name, n, least in self.floors:
            if n < least:
                new['floor:' + name] = ('bad', 'analysed only %d instances of "%s" (at least %d exist on the '
                                        'reference tree): the construct the property rests on is gone' % (n, name, least), 'floor')
        ok, und = self.count('ok'), self.count('und')
        kinds = {}
        for s, _, k in self.obl.values():
            d = kinds.setdefault(k, {'ok': 0, 'bad': 0, 'und': 0})
            d[s] += 1
        cov = {
            'explanation': explanation or rule,
            'rule': rule,
            'obligations': len(self.obl), 'discharged': ok, 'undecided': und,
            'violated': len(bad), 'known': len(known),
            'by_kind': kinds,
            'floors': [{'name': a, 'found': b, 'least': c} for a, b, c in self.floors],
            'functions_analysed': len(self.analysed),
            'value_number_comparisons': t.STATS['eq'], 'value_number_trials': t.STATS['trials'],
            'samples': self.samples or [{'obligation': k, 'verdict': v[0]} for k, v in list(self.obl.items())[:3]],
            'undecided_samples': [{'obligation': k, 'why': v[1][:200]} for k, v in self.obl.items() if v[0] == 'und'][:12],
        }
        cov.update(self.extra)
        if level == 'translation_validation':
            cov['programs'] = len(self.obl)
            cov['disagreements_checked'] = len(bad)
        ev = dict(property=self.pid, tier=self.tier, seed=seed(), level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 3), violations=len(new),
                  assumptions=list(assumptions) + ['method: static analysis of the type-checked program (HIR) of /repo\'s '
                                                   'current working tree; nothing of it is executed'])
        d = os.environ.get('PV_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(p + '.tmp', p)
        for k in sorted(known):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k, kn[k] or known[k][1]))
        print('%s: %d obligations, %d hold, %d undecided, %d violated (%d known)  [%.1f s]' % (
            self.pid, len(self.obl), ok, und, len(bad), len(known), time.time() - self.t0))
        if new:
            rd = os.path.join(d, 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + '.txt')
            with open(rp, 'w') as f:
                f.write('property %s\nrule: %s\n\n' % (self.pid, rule))
                for k in sorted(new):
                    f.write('%s\n    %s\n' % (k, new[k][1]))
            for k in sorted(new)[:12]:
                print('  %s: %s' % (k, new[k][1][:300]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


class Ctx(object):
    """the analysed program and its memoised abstract values"""

    def __init__(self, tier):
        self.tier = tier
        self.thorough = tier == 'thorough'
        t.SEED[0] = str(seed())
        t.EFFORT[0] = 6 if self.thorough else 1
        self.dump = prep.dump()
        self.prog = Program(self.dump)
        self.bodies = self.prog.bodies
        self.features = self.dump.get('features', '').split(',')
        self._memo = {}

    def ty(self, i):
        return self.prog.ty(i)

    def run(self, path, args, generics=None, **kw):
        """abstract value of a function on abstract arguments; TOP if outside the domain"""
        I = Interp(self.prog, **kw)
        try:
            r = I.run(path, args, generics)
        except Give as g:
            return t.top(str(g)), I
        except Dead:
            return t.top('diverges on every path'), I
        except RecursionError:
            return t.top('recursion'), I
        except Exception as e:
            if os.environ.get('PV_DEBUG'):
                raise
            return t.top('outside the interpreter: %r' % e), I
        return I.deref(r), I

    def where(self, path):
        b = self.bodies.get(path)
        return '%s:%s' % (b['file'], b['line']) if b else path


def main(pid, tier, checks):
    try:
        ctx = Ctx(tier)
    except prep.PrepError as e:
        rep = Report(pid, tier)
        rep.bad('build', 'the crate does not type-check, nothing can be analysed: ' + str(e)[-1500:])
        return rep.finish('the analysed program must type-check')
    rep = Report(pid, tier)
    try:
        return checks[pid](ctx, rep)
    except Exception:
        if os.environ.get('PV_DEBUG'):
            raise
        return incomplete(rep, traceback.format_exc())


def incomplete(rep, tb):
    """an analysis that stops before its end decides nothing about what is left: what it found so far counts, the rest is reported as undecided; without a single decided obligation there is no answer at all (exit 2)"""
    print('INCOMPLETE property=%s the analysis stopped before its end: %s' % (rep.pid, tb.strip().splitlines()[-1]))
    print(tb, file=sys.stderr)
    decided = rep.count('ok') + rep.count('bad')
    rep.floors = []
    rep.und('analysis', 'the analysis could not be completed, nothing after this point is decided: ' + tb[-1500:])
    r = rep.finish('the analysis stopped before its end: only the obligations reached are decided')
    return r if decided else 2


def guarded(pid, tier, checks):
    sys.setrecursionlimit(20000)
    return main(pid, tier, checks)


def int_literals(ctx, paths, least=4, most=300):
    """integer literals of the functions and of the crate functions they call: sizes at which their behaviour may change"""
    out, seen, st = set(), set(), list(paths)
    while st:
        p = st.pop()
        if p in seen or p not in ctx.bodies:
            continue
        seen.add(p)
        work = [ctx.bodies[p]['body']]
        while work:
            n = work.pop()
            if isinstance(n, dict):
                if n.get('k') == 'Lit' and isinstance(n['v'], list) and n['v'][0] in ('int', 'float'):
                    try:
                        x = float(re.sub(r'f(32|64)$', '', str(n['v'][1]).replace('_', '')) or 0) if n['v'][0] == 'float' else int(n['v'][1])
                        if x == int(x) and least <= x <= most:
                            out.add(int(x))
                    except ValueError:
                        pass
                q = n.get('p')
                if isinstance(q, str):
                    st.append(q)
                work.extend(n.values())
            elif isinstance(n, list):
                work.extend(n)
    return sorted(out)
