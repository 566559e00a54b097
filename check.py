#!/usr/bin/env python3
"""Runs the static check of one property on the current source of the repository.

usage: check.py <property> [--thorough]
exit 0: no violation; 1: violation(s), one VIOLATION line each; 2: not analysable"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
sys.path.insert(0, os.path.join(HERE, 'sa', 'rules'))
sys.setrecursionlimit(20000)
import prog  # noqa: E402


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.seen = set()
        self.obl = []          # (status, rule, at, text)
        self.miss = []
        self.fns = set()
        self.rules = {}
        self.notes = []

    def at(self, a):
        return '%s:%s' % (prog.rel(a[0]), a[1]) if isinstance(a, tuple) else str(a)

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rule, at, text):
        k = ('discharged', rule, self.at(at), text)
        if k not in self.seen:
            self.seen.add(k)
            self.obl.append(k)

    def bad(self, rule, at, text):
        k = ('violated', rule, self.at(at), text)
        if k not in self.obl:
            self.obl.append(k)

    def und(self, rule, at, text):
        self.obl.append(('undecided', rule, self.at(at), text))

    def missing(self, what):
        self.miss.append(what)

    def judge(self, v, rule, at, text):
        (self.ok if v is True else self.und if v is None else self.bad)(rule, at, text)

    def fn(self, f):
        self.fns.add(f['q'] if isinstance(f, dict) else f)

    def sub(self, names):
        """the same report with other names for the rules"""
        return View(self, names)

    def count(self, s):
        return sum(1 for o in self.obl if o[0] == s)


class View:
    def __init__(self, rep, names):
        self.rep, self.names = rep, names

    def __getattr__(self, k):
        f = getattr(self.rep, k)
        if k in ('ok', 'bad', 'und'):
            return lambda rule, *a: f(self.names.get(rule, rule), *a)
        if k == 'judge':
            return lambda v, rule, *a: f(v, self.names.get(rule, rule), *a)
        return f


def known(pid):
    """listed findings of a property: 'known: property=<id> at=<file> rule=<r> <text>'"""
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            if l.startswith('known: property=%s ' % pid):
                out.append(dict(x.split('=', 1) for x in l.split() if '=' in x))
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    rep = Report(pid)
    rep.tier = tier
    mod = importlib.import_module(pid.lower())
    try:
        p = prog.load()
        mod.run(p, rep)
    except prog.AnalysisError as e:
        print('cannot analyse: %s' % e)
        sys.exit(2)
    except Exception as e:      # code of a shape the rules do not understand
        import traceback
        traceback.print_exc()
        rep.und('internal', 'check', 'stopped: %s: %s' % (type(e).__name__, e))
        if not rep.count('discharged') and not rep.count('violated'):
            sys.exit(2)
    viol = [o for o in rep.obl if o[0] == 'violated']
    kf = known(pid)
    listed, fresh = [], []
    for v in viol:
        m = [k for k in kf if k.get('rule') == v[1] and v[2].startswith(k.get('at', '?') + ':')]
        (listed if m else fresh).append(v)
    cov = {
        'explanation': (mod.__doc__ or '').strip(),
        'rules': rep.rules,
        'obligations': len(rep.obl),
        'discharged': rep.count('discharged'),
        'undecided': rep.count('undecided'),
        'violated': len(viol),
        'functions_analysed': len(rep.fns),
        'functions': sorted(rep.fns)[:200],
        'missing_anchors': rep.miss,
        'undecided_items': ['%s %s: %s' % (o[1], o[2], o[3]) for o in rep.obl if o[0] == 'undecided'][:60],
        'samples': ['%s %s: %s' % (o[1], o[2], o[3]) for o in rep.obl if o[0] == 'discharged'][:40],
    }
    if rep.notes:
        cov['notes'] = rep.notes
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    evdir = os.environ.get('EFG_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in listed:
        print('KNOWN-FINDING: property=%s %s %s: %s' % (pid, v[1], v[2], v[3]))
    if '-v' in sys.argv:
        for o in rep.obl:
            print('%-10s %s %s: %s' % o)
        for m in rep.miss:
            print('missing', m)
    if fresh:
        rp = os.path.join(evdir, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v in fresh:
                f.write('%s %s: %s\n    rule: %s\n' % (v[1], v[2], v[3], rep.rules.get(v[1], '')))
        for v in fresh:
            print('%s %s: %s' % (v[1], v[2], v[3]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    if rep.miss:
        print('%s: anchors not found: %s' % (pid, '; '.join(rep.miss)))
        if not rep.count('discharged'):
            sys.exit(2)
    print('%s: %d obligations, %d discharged, %d undecided, %.1fs' % (
        pid, len(rep.obl), rep.count('discharged'), rep.count('undecided'), time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    main()
