"""Verdicts, VIOLATION lines and evidence files shared by all the checks."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def level(prop):
    try:
        m = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json')))
        return next(c['level'] for c in m['checks'] if c['property'] == prop)
    except (OSError, ValueError, KeyError, StopIteration):
        return 'proof'


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obl = {}           # obligation key -> True/False/None (discharged, violated, undecided)
        self.viol = []
        self.undec = []
        self.analysed = {}
        self.samples = []
        self.assumptions = []
        self.trusted = []
        self.rule = ''

    def ok(self, key):
        if self.obl.get(key) is not False:
            self.obl.setdefault(key, True)

    def bad(self, key, where, msg):
        if self.obl.get(key) is False:
            return
        self.obl[key] = False
        self.viol.append((where, key, msg))

    def undecided(self, key, where, msg):
        if self.obl.get(key) is not False:
            self.obl[key] = None
        self.undec.append((where, key, msg))

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def finish(self, checker_cmd=None, floor=1, known=()):
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        n = len(self.obl)
        done = sum(1 for v in self.obl.values() if v is True)
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        cov = {
            'obligations': n, 'discharged': done,
            'checker_cmd': checker_cmd or ' '.join([os.path.basename(sys.executable)] + sys.argv),
            'trusted_base': self.trusted or ['clang-18 front end and opt mem2reg (source to IR)', 'the analyser in /verif/absint'],
            'rule': self.rule, 'analysed': self.analysed,
            'obligation_keys': sorted(map(str, self.obl))[:400],
            'undecided': ['%s: %s: %s' % u for u in self.undec][:50],
            'violations_found': ['%s: %s: %s' % v for v in self.viol][:50],
        }
        if self.samples:
            cov['samples'] = self.samples[:20]
        d = {'property': self.prop, 'tier': self.tier, 'seed': seed, 'level': level(self.prop), 'coverage': cov,
             'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(self.viol)}
        tmp = os.path.join(ev, '.%s.%d' % (self.prop, os.getpid()))
        json.dump(d, open(tmp, 'w'), indent=1, default=str)
        os.replace(tmp, os.path.join(ev, self.prop + '.json'))
        print('%s: %d obligations, %d discharged, %d undecided, %d violated, %.1fs; analysed %s' % (
            self.prop, n, done, len(set(k for _, k, _ in self.undec)), len(self.viol), time.time() - self.t0, self.analysed))
        for u in self.undec[:20]:
            print('UNDECIDED %s: %s: %s' % u)
        for v in self.viol[:40]:
            print('  violated: %s: %s: %s' % v)
        if self.viol:
            rp = os.path.join(ev, 'replay')
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, self.prop + '.txt')
            with open(path, 'w') as f:
                f.write('Property %s is violated. Each line: place, rule instance, reason.\n' % self.prop)
                for v in self.viol:
                    f.write('%s: %s: %s\n' % v)
                f.write('\nRe-run: %s\n' % ' '.join(sys.argv))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if n < floor:
            print('ANALYSIS BROKEN: only %d obligations were generated, at least %d expected' % (n, floor))
            return 2
        return 0
