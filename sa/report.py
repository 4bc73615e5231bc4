"""Result object shared by all rules, known findings and evidence writing."""
import json
import os
import re
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(object):
    def __init__(self, rule, construct, loc, msg, path=None):
        self.rule, self.construct, self.loc, self.msg, self.path = rule, construct, loc, msg, path

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)

    def __repr__(self):
        s = '%s: [%s] %s: %s' % (self.loc, self.rule, self.construct, self.msg)
        if self.path:
            s += ' (path through lines %s)' % ','.join(str(x) for x in self.path[-14:])
        return s


class Result(object):
    def __init__(self, prop):
        self.prop = prop
        self.obligations = []  # (rule, construct, loc, ok, note)
        self.violations = []
        self.counts = {}
        self.rules = {}
        self.broken = []
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct, loc, note=''):
        self.obligations.append((rule, construct, loc, True, note))

    def bad(self, rule, construct, loc, msg, path=None):
        self.obligations.append((rule, construct, loc, False, msg))
        self.violations.append(Violation(rule, construct, loc, msg, path))

    def check(self, cond, rule, construct, loc, msg, path=None):
        if cond:
            self.ok(rule, construct, loc)
        else:
            self.bad(rule, construct, loc, msg, path)
        return cond

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, rule, minimum):
        """Fewer instances than ``minimum`` means the analysis lost its anchors."""
        n = sum(1 for o in self.obligations if o[0] == rule)
        if n < minimum:
            self.broken.append('rule %s found %d instances, expected at least %d' % (rule, n, minimum))


def load_known():
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                m = re.match(r'property=(\S+) key=(\S.*?) :: (.*)$', line)
                if m:
                    out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out
