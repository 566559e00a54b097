"""Refused operations leave the model as it was: effect analysis of the public operations
that can be refused (calls inlined); no change of the model may precede an explicit throw
on the same path."""
import sym as S
import flow as F
import model as M

CH = ('variables', 'nodes', 'clusters', 'evidences', 'evidences[]', 'active', 'disabled', 'unaries', 'factors', 'constf',
      'tunablef', 'tuners', 'afactor', 'dfactor', 'nodes[]', 'propagator', 'pool')
# operations on one item; the ones that add many items one by one are refused item by item
OPS = ('setEvidence', 'setEvidences', 'removeEvidence', 'removeEvidences', 'removeAllEvidences', 'addConstFactor',
       'copyConstFactor', 'addTunableFactor', 'copyTunableFactor', 'setWeights', 'setLoopyPropagationStrategy')
ASSUME = ['exceptions of the standard library (allocation failures) are not followed',
          'the bulk insertions (absorb...) are refused item by item and are not covered by this property']


class Client(F.Client):
    def __init__(self, m):
        self.m = m
        self.changes = set()

    def change(self, n):
        a = n.a
        r = None
        if a['ek'] == 'set':
            r = self.m.role(a['lv'])
            if a['lv'][0] == 'mem' and a['lv'][2] == 'weight':
                return 'weights'
        elif a['ek'] == 'mut':
            if a['op'] not in ('at',):
                r = self.m.role(a['C'])
                if a['op'] == '[]' and r not in ('active', 'disabled', 'evidences', 'nodes', 'tuners'):
                    r = None
        elif a['ek'] == 'call' and a['n'] == 'setWeight' and not a.get('cst'):
            return 'weights'
        return r if r in CH else None

    def before(self, n, facts, may):
        if self.change(n) and not any(x[0] == 'mut' for x in may):
            facts = facts | {('done', 'pre', f) for f in facts if f[0] != 'done'}
        return facts

    def event(self, n, facts, may):
        r = self.change(n)
        if r:
            self.changes.add((r, n.at))
            may = may | {('mut', r, n.at)}
        return facts, may


def instances(f, idx):
    """a quantified fact for the indices in use"""
    if f[0] != 'all':
        return [f]
    out = []
    for i in idx:
        out += instances(S.sub(f[2], {('b', f[1][4]): i}), idx)
    return out


class Prover:
    """shows that a refusal met after a change cannot happen: what it tests was validated before the change"""

    def __init__(self, m, tree):
        self.m = m
        self.fill = {}
        for n in M.events(tree):
            if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['op'] in ('push', 'insert', 'insert_all', '[]') and n.a['C'][0] == 'var':
                v = n.a.get('v') if n.a['op'] == 'push' else n.a.get('key')
                self.fill.setdefault(n.a['C'], []).append(v)

    def own(self, t):
        """an element of the model"""
        if t is None:
            return False
        if t[0] in ('ix', 'val', 'key', 'ent', 'found', 'pick', 'mem', 'deref', 'back'):
            r = F.roots(t)
            fs = {self.m.f[x] for x in ('variables', 'nodes', 'evidences')}
            if any(x[0] == 'f' and x[1] in fs for x in r):
                return True
            if r and r[-1][0] == 'v':
                c = [x for x in self.fill if x[1] == r[-1][1]]
                return bool(c) and all(self.own(v) for x in c for v in self.fill[x])
        return False

    def cannot(self, facts):
        pre = [f[2] for f in facts if f[0] == 'done' and f[1] == 'pre']
        for a in facts:
            if a[0] == 'done' or a[0] == 'all' or a[0] == 'or':
                continue
            idx = set(S.all_t(a, lambda x: x[0] == 'i'))
            neg = F.contra(a)
            for f in pre + [x for x in facts if x[0] == 'all']:
                if f == a or f[0] != 'all':
                    continue
                if neg in instances(f, idx):
                    return True
            # the nodes are those of the variables
            if a[0] == '!' and a[1][0] == 'in' and self.m.role(a[1][1]) == 'nodes' and self.own(a[1][2]):
                return True
            if a[0] == '!' and a[1][0] == 'rel' and a[1][1] == '==':
                for k, v in ((a[1][2], a[1][3]), (a[1][3], a[1][2])):
                    if v[0] == 'mem' and v[2] == self.m.f['nvar'] and self.m.role(v[1]) == 'nodes[]' and self.unique(k, pre):
                        return True
        return False

    def unique(self, k, pre):
        """k was compared with the variables of the model having its name"""
        for f in pre:
            if f[0] != 'all':
                # the one found by its name
                if f[0] == 'rel' and f[1] == '==':
                    for u, v in ((f[2], f[3]), (f[3], f[2])):
                        if u == k and v[0] == 'pick' and self.m.role(v[3]) == 'variables[]' and S.has(v[2], k):
                            return True
                continue
            # none has its name
            x = f[2]
            if x[0] == '!' and x[1][0] == 'rel' and x[1][1] == '==':
                for u, v in ((x[1][2], x[1][3]), (x[1][3], x[1][2])):
                    if u[0] == 'mem' and u[1] == k and v[0] == 'mem' and v[2] == u[2] and self.m.role(v[1]) == 'variables[]':
                        return True
            ks = [k] + ([S.sub(k, {k[2]: ('b', f[1][4])})] if k[0] == 'ix' else [])
            for y in S.all_t(f, lambda y: y[0] == 'rel' and y[1] == '=='):
                for u, v in ((y[2], y[3]), (y[3], y[2])):
                    if u in ks and self.m.role(v) == 'variables[]':
                        return True
        return False


def run(p, rep):
    m = M.Model(p)
    rep.rule('R1', 'no change of the model (variables, nodes, connections, evidences, clusters, factors, weights) precedes '
             'an explicit throw on any path of the operation')
    found = set()
    for f in m.entries():
        if f['n'] not in OPS or f.get('cst'):
            continue
        found.add(f['n'])
        t = S.Sym(p).build(f)
        c = Client(m)
        fl = F.Flow(c, cap=120 if rep.tier == 'quick' else 400)
        fl.run(t)
        rep.fn(f)
        by = {}
        pr = Prover(m, t)
        for n, (fa, may) in fl.throws:
            by.setdefault(n.at, []).append((fa, may))
        for at, sts in sorted(by.items()):
            muts = {x for fa, may in sts if not pr.cannot(fa) for x in may if x[0] == 'mut'}
            if not muts:
                rep.ok('R1', at, '%s can be refused here: nothing was changed before' % f['q'])
            else:
                ch = sorted({'%s (%s)' % (x[1], rep.at(x[2])) for x in muts})
                rep.bad('R1', at, '%s can be refused here after changing %s' % (f['q'], ', '.join(ch[:4])))
        rep.notes.append('%s: %d kinds of changes, %d throws' % (f['q'], len(c.changes), len(by)))
    for n in OPS[:9]:
        if n not in found:
            rep.missing(n)
