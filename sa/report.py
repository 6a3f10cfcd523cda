"""What a check found, and how it is told: VIOLATION / KNOWN-FINDING lines,
replay files and the evidence file."""
import hashlib
import json
import os
import re
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known-findings.txt')


class Report:
    last = None         # the report of the running check

    def __init__(self, pid, tier, rule):
        self.pid, self.tier, self.rule = pid, tier, rule
        self.t0 = time.time()
        self.violations = {}
        self.undecided = []
        self.coverage = {}
        self.samples = []
        Report.last = self

    def violation(self, rule, key, where, message, **detail):
        """key names the construct (function, operation, field), never a line"""
        k = '%s|%s' % (rule, key)
        v = self.violations.get(k)
        if v is None:
            self.violations[k] = {'property': self.pid, 'rule': rule, 'key': k, 'where': where,
                                  'message': message, 'detail': detail, 'sites': [where]}
        elif where not in v['sites']:
            v['sites'].append(where)

    def undecide(self, what, why):
        x = '%s: %s' % (what, why)
        if x not in self.undecided:
            self.undecided.append(x)

    def attempt(self, what, fn, *args):
        """code this analysis cannot read is undecided, not an error"""
        try:
            return fn(*args)
        except Exception as e:
            self.undecide(what, 'not followed (%s: %s)' % (type(e).__name__, str(e)[:120]))

    def count(self, name, n):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def sample(self, s, cap=12):
        if len(self.samples) < cap and s not in self.samples:
            self.samples.append(s)

    def known(self):
        out = {}
        if not os.path.exists(KNOWN):
            return out
        with open(KNOWN, encoding='utf-8') as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(.+?) :: (.*)$', line.strip())
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3)
        return out

    def finish(self, level, explanation):
        known = self.known()
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        rd = os.path.join(d, 'replay')
        os.makedirs(rd, exist_ok=True)
        new, old = [], []
        for k in sorted(self.violations):
            (old if k in known else new).append(self.violations[k])
        cov = dict(self.coverage)
        cov.setdefault('rule', self.rule)
        cov['explanation'] = explanation
        cov['samples'] = self.samples
        cov['undecided'] = self.undecided
        cov['violations'] = [v['key'] + ' at ' + ', '.join(v['sites'][:5]) for v in new]
        cov['known_findings'] = [v['key'] for v in old]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': level, 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2)}
        with open(os.path.join(d, self.pid + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
            f.write('\n')
        for v in old:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[v['key']]))
        for v in new[20:]:
            print('also: %s %s' % (v['where'], v['key']))
        for v in new[:20]:
            h = hashlib.sha1(v['key'].encode()).hexdigest()[:10]
            path = os.path.join(rd, '%s-%s.json' % (self.pid, h))
            with open(path, 'w', encoding='utf-8') as f:
                json.dump(v, f, indent=1, ensure_ascii=False, default=str)
                f.write('\n')
            print('%s: [%s] %s' % (v['where'], v['rule'], v['message']))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(path, ROOT)))
        print('%s: %d violation(s), %d known, %d undecided; %s' % (
            self.pid, len(new), len(old), len(self.undecided),
            ', '.join('%s=%s' % (a, b) for a, b in self.coverage.items() if isinstance(b, int))))
        return 1 if new else 0
