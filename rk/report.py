"""Context object of one check run: obligations, violations, known findings, evidence."""
import json, os, sys, time
from .ir import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.rules = {}          # rule -> [n obligations, n discharged]
        self.samples = {}
        self.violations = []
        self.known = []
        self.analysed = set()
        self.notes = []
        self.assumptions = []
        self.functions = set()
        self._seen = set()
        self.kf = []
        p = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(p):
            for e in json.load(open(p)).get('known', []):
                if e.get('property') == pid:
                    self.kf.append(e)

    def use(self, M):
        self.analysed.update(M.units)

    def fn(self, F):
        self.functions.add(F.dem)

    def ok(self, rule, what=None):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        r[1] += 1
        if what:
            s = self.samples.setdefault(rule, [])
            if len(s) < 6:
                s.append(what)

    def bad(self, rule, where, msg, key=None):
        """one violated obligation; key identifies it for the known findings file (default: rule + function)"""
        k = key or '%s|%s' % (rule, msg)
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if (rule, where, msg) in self._seen:
            return
        self._seen.add((rule, where, msg))
        for e in self.kf:
            if e.get('rule') == rule and e.get('match') and e['match'] in ('%s %s' % (where, msg)):
                if e not in self.known:
                    self.known.append(e)
                return
        self.violations.append({'rule': rule, 'where': where, 'message': msg, 'key': k})

    def check(self, cond, rule, where, msg, what=None):
        if cond:
            self.ok(rule, what or where)
        else:
            self.bad(rule, where, msg)
        return cond

    def floor(self, rule, n):
        got = self.rules.get(rule, [0, 0])[0]
        if got < n:
            raise AnalysisBroken('rule %s found only %d instances (confirmed by hand: at least %d)' % (rule, got, n))

    def finish(self, explanation, assumptions=()):
        ob = sum(r[0] for r in self.rules.values())
        di = sum(r[1] for r in self.rules.values())
        if ob == 0:
            raise AnalysisBroken('no obligation was generated')
        cov = {
            'explanation': explanation,
            'obligations': ob, 'discharged': di,
            'rules': {k: {'obligations': v[0], 'discharged': v[1]} for k, v in sorted(self.rules.items())},
            'translation_units': sorted(self.analysed),
            'functions_analysed': len(self.functions),
            'samples': [{'rule': k, 'instances': v} for k, v in sorted(self.samples.items())],
        }
        if self.notes:
            cov['notes'] = self.notes
        if self.violations:
            cov['violation_list'] = self.violations
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': cov, 'assumptions': list(assumptions) + self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.pid + '.json'), 'w'), indent=1)
        for e in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, e.get('what', e.get('match'))))
        print('%s: %d obligations, %d discharged, %d functions, %d translation units, %.1f s' % (self.pid, ob, di, len(self.functions), len(self.analysed), time.time() - self.t0))
        if self.violations:
            rp = os.path.join(d, self.pid + '.replay.json')
            json.dump({'property': self.pid, 'violations': self.violations, 'reproduce': './check.py %s %s' % (self.pid, self.tier)}, open(rp, 'w'), indent=1)
            for v in self.violations[:40]:
                print('  [%s] %s: %s' % (v['rule'], v['where'], v['message']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0
