"""Common parts of the checks: findings, reports, evidence, exit codes."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')


class Finding:
    """rule + construct identify a finding, the line number does not"""

    def __init__(self, rule, where, construct, msg, detail=None):
        self.rule = rule            # name of the rule
        self.where = where          # file:function
        self.construct = construct  # normalised text of the offending construct
        self.msg = msg
        self.detail = detail

    def key(self):
        return '%s | %s | %s' % (self.rule, self.where, ' '.join(str(self.construct).split())[:160])

    def as_dict(self):
        return {'rule': self.rule, 'where': self.where, 'construct': str(self.construct),
                'message': self.msg, 'detail': self.detail}


class AnalysisError(Exception):
    """the analysis cannot decide: an anchor is missing or the code uses an unsupported form"""


def known_keys(pid):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                pre = 'known: property=%s ' % pid
                if line.startswith(pre):
                    rest = line[len(pre):]
                    key, _, what = rest.partition(' :: ')
                    out[key.strip()] = what.strip()
    return out


class Report:
    """collects findings + what has been analysed for one property"""

    def __init__(self, pid):
        self.pid = pid
        self.findings = []
        self.coverage = {}
        self.rules = []
        self.assumptions = []
        self.samples = []

    def find(self, *a, **k):
        f = Finding(*a, **k)
        if f.key() not in {x.key() for x in self.findings}:
            self.findings.append(f)

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def need(self, name, minimum):
        """the rule has to be applied to at least `minimum` instances"""
        n = self.coverage.get(name, 0)
        if n < minimum:
            raise AnalysisError('only %d instances of "%s" found, at least %d expected: '
                                'an anchor of the analysis is missing' % (n, name, minimum))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def finish(rep, tier, level, explanation, t0):
    os.makedirs(EVID, exist_ok=True)
    known = known_keys(rep.pid)
    new, old = [], []
    for f in rep.findings:
        (old if f.key() in known else new).append(f)
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (rep.pid, f.key()))
    cov = {'explanation': explanation, 'rules': rep.rules}
    cov.update(rep.coverage)
    cov['examples'] = rep.samples
    ev = {
        'property': rep.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
        'violations': len(new), 'assumptions': rep.assumptions,
    }
    with open(os.path.join(EVID, rep.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        path = os.path.join(EVID, rep.pid + '.violation.json')
        with open(path, 'w') as f:
            json.dump([x.as_dict() for x in new], f, indent=1, default=str)
        for x in new[:20]:
            print('%s: %s: %s' % (x.rule, x.where, x.msg))
            print('    at: %s' % ' '.join(str(x.construct).split())[:200])
        print('VIOLATION property=%s replay=%s' % (rep.pid, path))
        return 1
    print('%s: held (%s)' % (rep.pid, ', '.join('%s=%s' % kv for kv in sorted(rep.coverage.items())
                                               if isinstance(kv[1], int))[:400]))
    return 0
