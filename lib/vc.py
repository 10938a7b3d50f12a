"""The frame of a check: seed, tier, evidence, violations, known findings."""
import json, os, random, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.level = 'model_checking'
        self.states = self.transitions = self.traces = 0
        self.evals = 0
        self.samples, self.violations, self.known = [], [], []
        self.notes, self.assumptions, self.parts = [], [], []
        self.nontrivial = set()
        self.exhaustive = None
        self.findings = self._load_findings()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self, budget_quick=60, budget_thorough=780):
        return (budget_thorough if self.thorough else budget_quick) - (time.time() - self.t0)

    def _load_findings(self):
        res = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p, encoding='utf-8'):
                if l.startswith('finding: property=%s ' % self.prop):
                    d = l.split(' key=', 1)
                    if len(d) == 2:
                        res.append((d[1].split(' :: ')[0].strip(), l.strip()))
        return res

    # -- reporting
    def model(self, r, name):
        self.states += r.distinct; self.transitions += r.generated
        self.parts.append('%s: %d distinct states, %d generated, %.1fs' % (name, r.distinct, r.generated, r.wall))

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def violation(self, why, replay, key=None):
        """replay: JSON-able description (commands and the judged record)."""
        k = key or ''
        for fk, line in self.findings:
            if k and fk == k:
                if fk not in [x for x, _ in self.known]:
                    self.known.append((fk, line))
                return
        d = os.path.join(VERIF, 'build', 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        with open(p, 'w') as h:
            json.dump({'property': self.prop, 'why': why, 'seed': self.seed, 'tier': self.tier, 'case': replay}, h, indent=1)
        self.violations.append((why, p))

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'evaluations': self.evals, 'distinct_nontrivial': len(self.nontrivial),
               'samples': self.samples or ['(none)'], 'parts': self.parts}
        if self.notes:
            cov['rule'] = ' '.join(self.notes)
        if self.exhaustive is not None:
            cov['exhaustive'] = self.exhaustive
        ev = {'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1, ensure_ascii=True)
        for fk, line in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, line.split(' :: ', 1)[-1]))
        for why, p in self.violations[:5]:
            print('# ' + why[:500])
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, self.violations[0][1]))
            return 1
        print('ok property=%s tier=%s states=%d traces=%d wall=%.1fs' % (self.prop, self.tier, self.states, self.traces, time.time() - self.t0))
        return 0
