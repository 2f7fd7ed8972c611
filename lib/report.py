"""Verdicts, known findings, and evidence."""
import hashlib, json, os, sys, time, traceback
import drv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.txt')


def known_findings(prop):
    """{key: text} of the findings recorded (not repaired) for a property"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            w = line.strip().split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + prop and w[2].startswith('key='):
                out[w[2][4:]] = w[3]
    return out


class Check:
    def __init__(self, prop, rule):
        self.prop = prop
        self.rule = rule
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.counts = {}
        self.samples = []
        self.violations = []       # (key, message, replay text)
        self.assumptions = []
        self.maxerr = {}
        self.known_hit = set()
        Check.current = self

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def case(self, key=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            if key is None:
                key = self.evaluations
            self.nontrivial.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def err(self, name, v):
        """Track the largest discrepancy (as a fraction of what is allowed)"""
        if v == v and v > self.maxerr.get(name, 0.0):
            self.maxerr[name] = float(v)

    def sample(self, s, n=4):
        if len(self.samples) < n:
            self.samples.append(s)

    def violation(self, key, message, replay=''):
        if sum(1 for v in self.violations if v[0] == key) < 40:
            self.violations.append((key, message, replay))

    def finish(self, minimum=1):
        known = known_findings(self.prop)
        new = [v for v in self.violations if v[0] not in known]
        for k, text in known.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.nontrivial),
               'rule': self.rule, 'samples': self.samples or ['(none)'],
               'observed': self.counts,
               'largest_discrepancy_as_fraction_of_allowed': self.maxerr,
               'known_findings_reproduced': sorted(set(v[0] for v in self.violations) & set(known))}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        if new:
            rd = os.path.join(VERIF, 'replays')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-seed%d.txt' % (self.prop, self.seed))
            with open(path, 'w') as f:
                for k, m, r in new[:20]:
                    f.write('### %s\n%s\n--- replay\n%s\n\n' % (k, m, r))
            for k, m, r in new[:10]:
                print('%s: [%s] %s' % (self.prop, k, m))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if self.evaluations < minimum or len(self.nontrivial) < 2:
            print('%s: observed too little (%d evaluations)' % (self.prop, self.evaluations))
            return 2
        print('%s: held on %d evaluations (%d distinct non-trivial) in %.0f s; observed %s' % (
            self.prop, self.evaluations, len(self.nontrivial), time.time() - self.t0, json.dumps(self.counts)))
        return 0


def main(fn):
    """Run a check; failures of the machinery itself are neither 0 nor 1."""
    try:
        rc = fn()
    except drv.Hang as e:
        Check.current.violation('hang', str(e), e.script)
        rc = Check.current.finish()
    except Exception:
        traceback.print_exc()
        print('check could not be completed (inconclusive)')
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
