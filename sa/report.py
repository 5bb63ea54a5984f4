"""Findings, evidence and the exit status of a check."""
import json
import os
import re
import sys
import time

from build import VERIF, REPO, Broken, repo_hash

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def rel(p):
    return os.path.relpath(p, REPO) if p.startswith(REPO + '/') else p


class Finding:
    def __init__(self, rule, key, msg, where='', path=()):
        self.rule = rule
        self.key = re.sub(r'\s+', ' ', key)     # identifies the construct (no line numbers)
        self.msg = msg
        self.where = where
        self.path = list(path)

    def text(self):
        s = '[%s] %s\n    at %s\n    construct: %s\n' % (self.rule, self.msg, self.where, self.key)
        for p in self.path:
            s += '      ' + p + '\n'
        return s


class Check:
    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.t0 = time.time()
        self.findings = {}
        self.cov = {}
        self.notes = []
        self.instances = {}    # rule -> list of instances (strings)
        self.mins = {}
        self.assumptions = []
        self.progs = []

    def inst(self, rule, what):
        self.instances.setdefault(rule, set()).add(what)

    def require(self, rule, n):
        """the rule must have matched at least n instances, or the analysis is broken"""
        self.mins[rule] = n

    def find(self, rule, key, msg, where='', path=()):
        f = Finding(rule, key, msg, where, path)
        k = (f.rule, f.key)
        if k not in self.findings:
            self.findings[k] = f
        return f

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                m = re.match(r'^known: property=(\S+) rule=(\S+) construct=\{(.*?)\} (.*)$', l)
                if m and m.group(1) == self.prop:
                    out[(m.group(2), m.group(3))] = m.group(4)
        return out

    def finish(self, explanation, level='other', extra=None):
        kn = self.known()
        viol = []
        for k, f in sorted(self.findings.items()):
            if k in kn:
                print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, f.key, kn[k]))
            else:
                viol.append(f)
        broken = []
        if not viol:
            for r, n in self.mins.items():
                got = len(self.instances.get(r, ()))
                if got < n:
                    broken.append('rule %s matched %d instances, at least %d are expected' % (r, got, n))
        cov = {'explanation': explanation}
        cov['rule_instances'] = {r: len(v) for r, v in sorted(self.instances.items())}
        cov['instance_samples'] = {r: sorted(v)[:6] for r, v in sorted(self.instances.items())}
        cov['repo_sources_sha256'] = repo_hash()[:16]
        cov['known_findings_seen'] = len(self.findings) - len(viol)
        cov.update(self.cov)
        if extra:
            cov.update(extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        evd = os.path.join(os.environ['VERIF_BUILD'] if os.environ.get('VERIF_NOEV') else VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, sort_keys=True, default=str)
            fh.write('\n')
        print('%s: %s; %d violation(s), %.1f s' % (
            self.prop, ', '.join('%s=%d' % (r, len(v)) for r, v in sorted(self.instances.items())), len(viol),
            time.time() - self.t0))
        if viol:
            d = os.path.join(os.environ.get('VERIF_BUILD') or os.path.join(VERIF, 'build'), 'reports')
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, self.prop + '.txt')
            with open(rp, 'w') as fh:
                for f in viol:
                    fh.write(f.text() + '\n')
            for f in viol[:12]:
                print(f.text())
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if broken:
            for b in broken:
                print('ANALYSIS-BROKEN property=%s %s' % (self.prop, b))
            return 3
        return 0
