"""Outcome of one check: findings, coverage counters, evidence, exit code."""
import os, sys, json, time, re
import build

EVID = os.path.join(build.VERIF, 'evidence')


class Broken(Exception):
    """The analysis cannot give an answer (vanished anchor, zero instances)."""


class Report:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.findings = {}          # key -> text
        self.counts = {}
        self.samples = []
        self.assume = []
        self.floors = {}
        self.t0 = time.time()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        """Fail as broken when fewer instances than confirmed by hand are found."""
        self.floors[name] = least

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s)

    def viol(self, key, msg):
        """key: stable identity (function and construct, no line numbers)."""
        self.findings.setdefault(key, msg)

    def finish(self):
        known, fixed = load_known()
        tier = os.environ.get('VERIF_TIER', 'quick')
        kn = known.get(self.pid, {})
        new = {k: v for k, v in self.findings.items() if k not in kn}
        old = {k: v for k, v in self.findings.items() if k in kn}
        total = sum(self.counts.values())
        ev = {'property': self.pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
              'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': {'explanation': self.rule, 'rule': self.rule,
                           'evaluations': total, 'instances': self.counts,
                           'samples': self.samples[:12] or ['none'],
                           'exhaustive': True},
              'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        os.makedirs(EVID, exist_ok=True)
        ev['coverage']['known_findings_present'] = sorted(old)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        print('%s: %s' % (self.pid, ', '.join('%s=%d' % kv for kv in sorted(self.counts.items()))))
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, old[k].replace('\n', ' ')))
        if new:
            rp = os.path.join(EVID, self.pid + '.violations.txt')
            with open(rp, 'w') as fh:
                for k in sorted(new):
                    fh.write('[%s]\n%s\n\n' % (k, new[k]))
            for k in sorted(new)[:40]:
                print('  %s: %s' % (k, new[k]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        for n, least in self.floors.items():
            if self.counts.get(n, 0) < least:
                print('ANALYSIS-BROKEN property=%s: %s=%d, expected at least %d' %
                      (self.pid, n, self.counts.get(n, 0), least))
                return 2
        return 0


def load_known():
    """known-findings.txt:  'known: property=ID key=<key> | text'  and 'fixed: ...'"""
    known, fixed = {}, []
    p = os.path.join(build.VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\w+) key=(.*?) \| (.*)$', line.strip())
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
            elif line.startswith('fixed:'):
                fixed.append(line.strip())
    return known, fixed
