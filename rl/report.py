"""Common reporting: obligations, violations, known findings, evidence."""
import json, os, sys, time
from .ir import VERIF, AnalysisBroken

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Check:
    def __init__(self, prop, rule, assumptions=()):
        self.prop = prop
        self.rule = rule
        self.t0 = time.time()
        self.obl = {}          # clause -> [total, discharged]
        self.viol = {}         # key -> (where, message)
        self.undecided = []
        self.samples = {}
        self.analysed = {}
        self.assumptions = list(assumptions)
        self.floors = []

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def obligation(self, clause, where, ok, key=None, msg=None):
        """One instance of clause at `where`; ok True/False/None(undecided)."""
        o = self.obl.setdefault(clause, [0, 0])
        o[0] += 1
        if ok is True:
            o[1] += 1
            s = self.samples.setdefault(clause, [])
            if len(s) < 4:
                s.append(where)
        elif ok is None:
            self.undecided.append('%s: %s: %s' % (clause, where, msg or ''))
        else:
            self.violation(clause, where, key or where, msg or '')

    def violation(self, clause, where, key, msg):
        k = '%s|%s' % (clause, key)
        if k not in self.viol:
            self.viol[k] = (where, msg)

    def floor(self, clause, least):
        """The clause must have matched at least this many instances: a rule
        that sees nothing decides nothing."""
        self.floors.append((clause, least))

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.rstrip('\n')
                if line.startswith('finding: property=%s ' % self.prop):
                    rest = line.split(' ', 2)[2]
                    key, _, what = rest.partition(' :: ')
                    out[key.strip()] = what.strip()
        return out

    def finish(self):
        for clause, least in self.floors:
            n = self.obl.get(clause, [0, 0])[0]
            if n < least:
                raise AnalysisBroken('%s: clause "%s" matched %d instances, expected at least %d'
                                     % (self.prop, clause, n, least))
        known = self.known()
        new = {k: v for k, v in self.viol.items() if k not in known}
        old = {k: v for k, v in self.viol.items() if k in known}
        tot = sum(v[0] for v in self.obl.values())
        dis = sum(v[1] for v in self.obl.values())
        ev = {
            'property': self.prop,
            'tier': os.environ.get('VERIF_TIER', 'quick'),
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': {
                'explanation': self.rule,
                'analysed': self.analysed,
                'obligations': tot,
                'discharged': dis,
                'undecided': len(self.undecided),
                'clauses': {k: {'instances': v[0], 'discharged': v[1]} for k, v in sorted(self.obl.items())},
                'samples': [{'clause': k, 'at': s} for k, v in sorted(self.samples.items()) for s in v] or ['none'],
                'undecided_list': self.undecided[:80],
                'known_findings_seen': sorted(old),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, (where, msg) in sorted(old.items()):
            print('KNOWN-FINDING: property=%s %s: %s [%s]' % (self.prop, where, msg, k))
        print('%s: %d obligations, %d discharged, %d undecided, %d known, %d new violations'
              % (self.prop, tot, dis, len(self.undecided), len(old), len(new)))
        if os.environ.get('RL_UNDECIDED'):
            for u in self.undecided:
                print('  undecided: ' + u)
        if new:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violations.txt')
            with open(rp, 'w') as f:
                f.write('Rule: %s\n\n' % self.rule)
                for k, (where, msg) in sorted(new.items()):
                    f.write('%s: %s\n    key: %s\n' % (where, msg, k))
            for k, (where, msg) in sorted(new.items()):
                print('  %s: %s [%s]' % (where, msg, k))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0
