"""Common part of the analyses of the graph state."""
import sym as S
import flow as F
import model as M


def strip(t):
    while t[0] in ('deref', 'addr'):
        t = t[1]
    return t


def holds(facts, g):
    if g in facts:
        return True
    idx = S.all_t(g, lambda x: x[0] == 'i')
    return any(x[0] == 'all' and S.sub(x[2], {('b', x[1][4]): i}) == g for x in facts for i in idx)


class NodeClient(F.Client):
    """terms of nodes, connections, evidences; conditions that select them are remembered"""

    def __init__(self, m, tree):
        self.m = m
        self.sites = set()
        self.conds = set()      # atoms of the conditional terms: their first test is remembered
        seen = set()
        for n in M.events(tree):
            for v in n.a.values():
                if isinstance(v, tuple) and v not in seen:
                    seen.add(v)
                    for c in S.all_t(v, lambda x: x[0] == 'cond') if isinstance(v[0] if v else 0, str) else ():
                        for pol in (True, False):
                            self.leaves(F.atoms(c[1], pol))

    def leaves(self, ats):
        for a in ats:
            if a[0] == 'or':
                for alt in a[1]:
                    self.leaves(alt)
            else:
                self.conds.add(a)
                self.conds.add(F.contra(a))

    def wants(self, f):
        if f[0] in ('done', 'isset', 'isalt', 'i') or f in self.conds:
            return True
        if f[0] == '!':
            return self.wants(f[1])
        if f[0] == 'all':
            return self.wants(f[2])
        if f[0] == 'or':
            return any(self.wants(y) for alt in f[1] for y in alt)
        if f[0] == 'in':
            return self.m.role(f[1]) in ('nodes', 'evidences', 'active', 'disabled')
        return f[0] == 'rel' and f[1] == '<' and f[2][0] == 'i'

    def assume(self, c, pol, st):
        f, m = st
        add = set()
        for a in F.atoms(c, pol):
            if a in self.conds and ('done', 't', F.contra(a)) not in f:
                add.add(('done', 't', a))
        return (f | add, m) if add else st

    def resolve(self, t, facts):
        if not S.any_t(t, lambda x: x[0] == 'cond'):
            return t
        return F.resolve(t, frozenset(x[2] for x in facts if x[0] == 'done' and x[1] == 't'))

    def groups(self, n, ss):
        """apart when the terms of the loop depend on the outcome of earlier tests"""
        if n.a.get('lo') is None:
            return [ss]
        u = n.a.get('_cond')
        if u is None:
            ts = [v for e in M.events(n) for v in e.a.values() if isinstance(v, tuple) and v and isinstance(v[0], str)] + [n.a['hi']]
            u = n.a['_cond'] = {c for t in ts for c in S.all_t(t, lambda x: x[0] == 'cond')}
        if not u:
            return [ss]
        by = {}
        for st in ss:
            by.setdefault(frozenset(self.resolve(c, st[0]) for c in u), set()).add(st)
        return list(by.values()) if len(by) <= 8 else [ss]

    # ------------------------------------------------------------------- terms
    def canon(self, t):
        f = self.m.f

        def go(x):
            if not isinstance(x, tuple):
                return x
            x = tuple(go(y) for y in x)
            if x and x[0] in ('deref', 'addr') and len(x) == 2:
                return x[1]
            # the variable of the node of v is v
            if len(x) == 3 and x[0] == 'mem' and x[2] == f['nvar'] and x[1][0] == 'val' and self.m.role(x[1]) == 'nodes[]':
                return x[1][2]
            return x
        return go(t)

    def holder(self, t):
        """the node that owns the container or the field"""
        t = strip(t)
        return self.canon(t[1]) if t[0] == 'mem' else ('nil',)

    def conn(self, lv):
        """node and neighbour of X.disabled{Y}.field"""
        t = strip(lv)
        if t[0] == 'mem':
            t = strip(t[1])
        if t[0] == 'mem' and t[2] == 'second':
            t = strip(t[1])
        if t[0] in ('val', 'found', 'ent') and t[1][0] == 'mem':
            return self.canon(t[1][1]), self.canon(t[2])
        return None

    def absent(self, r, h, k, facts):
        """the two nodes are known not to be connected"""
        for x in (h, k):
            if ('done', 'newnode', x) in facts:
                return True
        if ('done', 'er', r, h, k) in facts or ('done', 'er', r, k, h) in facts:
            return False
        for x in facts:
            if x[0] == '!' and x[1][0] == 'in' and self.m.role(x[1][1]) == r:
                c, y = self.holder(self.resolve(x[1][1], facts)), self.canon(self.resolve(x[1][2], facts))
                if (c, y) in ((h, k), (k, h)):
                    return True
        return False

    def elem(self, t, q, d):
        """t is the element of a container at the bound index d: (container)"""
        t = strip(t)
        b = ('b', d)
        if t[0] in ('ix', 'key', 'ent') and t[2] == b:
            return t[1]
        if t[0] == 'val' and t[2][0] == 'key' and t[2][2] == b and t[2][1] == t[1]:
            return t[1]
        return None

    def whole(self, q, c):
        hi = q[2]
        return hi[0] == 'size' and self.canon(hi[1]) == self.canon(c) or hi[0] == 'endof'

    def var(self, h):
        h = strip(h)
        if h[0] == 'val' and self.m.role(h) == 'nodes[]':
            return h[2]
        return S.mem(h, self.m.f['nvar'])

    def evidence(self, h, facts):
        v = self.var(h)
        for x in facts:
            if x[0] == 'in' and self.m.role(x[1]) == 'evidences' and self.canon(x[2]) in (v, self.canon(S.mem(h, self.m.f['nvar']))):
                return True
        return False
