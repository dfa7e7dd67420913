"""Obligation bookkeeping, known findings, evidence and the exit status."""
import json, os, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Report:
    def __init__(self, pid, rule):
        self.pid = pid; self.rule = rule; self.obls = []; self.viol = {}; self.undecided = {}; self.analysed = set(); self.sites = 0
        self.t0 = time.time(); self.counts = {}; self.notes = []; self.lost = []
    def analysed_fns(self, names):
        self.analysed |= set(names)
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def ob(self, okay, key, msg='', where=''):
        """one obligation; key identifies it without line numbers"""
        self.obls.append((key, bool(okay)))
        if not okay and key not in self.viol: self.viol[key] = (msg, where)
        return okay
    def known(self, okay, key, msg='', where=''):
        """a construct the abstraction cannot resolve: recorded as undecided, never as a violation"""
        if okay: self.obls.append((key, True))
        else: self.undecided[key] = (msg, where)
        return okay
    def floor(self, n, what, minimum):
        self.counts[what] = n
        if n < minimum: self.lost.append('only %d %s found, at least %d expected: the anchor of this rule has moved or vanished' % (n, what, minimum))
    def finish(self, tier, level='other', extra=None):
        known = {}; path = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(path):
            for k in json.load(open(path)).get('findings', []):
                if k['property'] == self.pid: known[k['key']] = k['what']
        new = []; kn = []
        for k, (m, w) in sorted(self.viol.items()):
            (kn if k in known else new).append((k, m, w))
        ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
        rep = os.path.join(ev, 'replay'); os.makedirs(rep, exist_ok=True)
        rpath = os.path.join(rep, self.pid + '.json')
        json.dump({'property': self.pid, 'violations': [{'key': k, 'message': m, 'where': w} for k, m, w in new]}, open(rpath, 'w'), indent=1)
        good = sum(1 for _, o in self.obls if o)
        cov = {'obligations': len(self.obls), 'discharged': good, 'obligation_groups': len(set(k.split(':')[0] for k, _ in self.obls)),
               'functions_analysed': len(self.analysed), 'rule': self.rule,
               'checker_cmd': 'python3 /verif/check.py ' + self.pid,
               'trusted_base': ['rustc nightly MIR construction', '/verif/driver', '/verif/engine', '/verif/rules/%s.py' % self.pid],
               'explanation': self.rule + ' Every obligation is a construct of the current source (function, call site or result constructor) judged by the rule; nothing is executed.',
               'undecided': {k: m for k, (m, w) in self.undecided.items()}, 'counts': self.counts, 'samples': sorted(set(k for k, _ in self.obls))[:40], 'functions': sorted(self.analysed)[:60],
               'known_findings': [k for k, _, _ in kn]}
        if extra: cov.update(extra)
        json.dump({'property': self.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
                   'assumptions': self.notes, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)},
                  open(os.path.join(ev, self.pid + '.json'), 'w'), indent=1)
        for k, m, w in kn: print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, known[k], k))
        print('%s: %d obligations, %d discharged, %d functions analysed, %.1fs' % (self.pid, len(self.obls), good, len(self.analysed), time.time() - self.t0))
        for k, (m, w) in sorted(self.undecided.items()): print('  undecided: %s  %s  %s' % (k, w, m))
        for k, m, w in new:
            print('  violated: %s  %s  %s' % (k, w, m))
        if new:
            print('VIOLATION property=%s replay=%s' % (self.pid, rpath))
            return 1
        for m in self.lost: print('  no answer: ' + m)
        return 2 if self.lost else 0
