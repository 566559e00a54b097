"""Connections are kept symmetric and of the right kind: what is done on one side of a
connection is done on the other, hidden-hidden pairs are active and the others disabled
(path-sensitive effect analysis of the operations that touch connections, calls inlined)."""
import sym as S
import flow as F
import model as M
from nodes import NodeClient, strip, holds
from rules import c02

ASSUME = ['a node kept under a variable is the node of that variable']
HOLE = ('hole',)


class Conn(NodeClient):
    def __init__(self, m, tree):
        super().__init__(m, tree)
        self.pushes = {}        # local container -> what is known of its elements
        self.undec = set()

    def wants(self, f):
        if f[0] == 'rel' and f[1] == '==' and f[2][0] == 'size' and self.m.role(f[2][1]) == 'active':
            return True
        return super().wants(f)

    def assume(self, c, pol, st):
        st = super().assume(c, pol, st)
        f, m = st
        add = set()
        for a in F.atoms(c, pol):
            if a[0] == 'rel' and a[1] == '==' and a[3] == S.lit(0) and a[2][0] == 'size' and self.m.role(a[2][1]) == 'active':
                add.add(('done', 'noact', self.holder(self.resolve(a[2][1], f))))
        return (f | add, m) if add else st

    # ---------------------------------------------------------------- hidden ?
    def vars_of(self, h):
        h = strip(h)
        return {self.canon(self.var(h)), self.canon(S.mem(h, self.m.f['nvar']))}

    def observed(self, h, facts):
        vs = self.vars_of(h)
        for x in facts:
            if x[0] == 'in' and self.m.role(x[1]) == 'evidences' and self.canon(self.resolve(x[2], facts)) in vs:
                return True
        return False

    def hidden(self, h, facts):
        h = strip(h)
        if ('done', 'newnode', h) in facts:
            return True
        vs = self.vars_of(h)
        if any(('done', 'unobs', v) in facts for v in vs):
            return True
        for x in facts:
            if x[0] == '!' and x[1][0] == 'in' and self.m.role(x[1][1]) in ('evidences', 'nodes'):
                if self.canon(self.resolve(x[1][2], facts)) in vs:
                    return True
        if h[0] == 'ix' and h[1] in self.pushes:
            k = self.pushes[h[1]]
            hv = S.mem(HOLE, self.m.f['nvar'])
            if k is not None and any(x[0] == '!' and x[1][0] == 'in' and self.m.role(x[1][1]) == 'evidences'
                                     and self.canon(x[1][2]) == hv for x in k):
                return True
        return False

    # ------------------------------------------------------------------ events
    def event(self, n, facts, may):
        a, m = n.a, self.m
        if a['ek'] in ('mut', 'set'):
            a = {k: self.resolve(v, facts) if isinstance(v, tuple) else v for k, v in a.items()}
        add = set()
        if a['ek'] == 'mut':
            r = m.role(a['C'])
            if r in ('active', 'disabled') and a.get('key'):
                h, k = self.holder(a['C']), self.canon(a['key'])
                if a['op'] in ('[]', 'insert'):
                    self.sites.add(('ins', r, n.at))
                    if r == 'active':
                        facts = facts - {('done', 'noact', h)}
                    add.add(('done', 'ins', r, h, k))
                    o = ('half', r, 'ins', k, h)
                    if any(x[:5] == o for x in may):
                        may = frozenset(x for x in may if x[:5] != o)
                    elif ('done', 'ins', r, k, h) not in facts:
                        may = may | {('half', r, 'ins', h, k, n.at)}
                    may = may | {('fac', r, h, k, n.at)}
                    if r == 'active':
                        if not (self.hidden(h, facts) and self.hidden(k, facts)):
                            may = may | {('kind', h, k, n.at)}
                    else:
                        may = may | {('dis', h, k, n.at)}
                    o = 'disabled' if r == 'active' else 'active'
                    if ('done', 'del', o, h, k) not in facts and not self.absent(o, h, k, facts):
                        may = may | {('both', r, h, k, n.at)}
                elif a['op'] == 'erase':
                    self.sites.add(('del', r, n.at))
                    add.add(('done', 'del', r, h, k))
                    may = frozenset(x for x in may if not (x[0] == 'both' and x[1] != r and x[2:4] == (h, k)))
                    o = ('half', r, 'del', k, h)
                    if any(x[:5] == o for x in may):
                        may = frozenset(x for x in may if x[:5] != o)
                    elif not self.gone and ('done', 'del', r, k, h) not in facts:
                        may = may | {('half', r, 'del', h, k, n.at)}
            elif r in ('active', 'disabled') and a['op'] == 'clear':
                h = self.holder(a['C'])
                ok = any(x[0] == 'all' and x[1][1] == S.lit(0) and x[1][3] == 1 and x[2][0] == 'done' and x[2][1:3] == ('del', r)
                         and x[2][4] == h and self.elem(x[2][3], x[1], x[1][4]) == a['C'] for x in facts)
                if not ok:
                    may = may | {('half', r, 'del', h, None, n.at)}
                if r == 'active':
                    add.add(('done', 'noact', h))
            elif r == 'nodes' and a['op'] in ('insert', '[]') and a.get('key'):
                add.add(('done', 'newnode', self.canon(('val', a['C'], a['key']))))
            elif r == 'evidences':
                k = self.canon(a['key']) if a.get('key') else None
                if a['op'] in ('insert', '[]') and k:
                    self.sites.add(('ev', 'ins', n.at))
                    facts = frozenset(x for x in facts if x != ('done', 'unobs', k))
                    if not self.was:
                        may = may | {('ev', k, n.at)}
                elif a['op'] == 'erase' and k:
                    self.sites.add(('ev', 'del', n.at))
                    add.add(('done', 'unobs', k))
                    may = may | {('react', k, n.at)}
            elif r is None and a['C'][0] == 'var' and a['op'] in ('push', 'insert'):
                v = a.get('v') if a['op'] == 'push' else a.get('key')
                if v is not None:
                    v2 = strip(v)
                    know = frozenset(S.sub(self.canon(x), {self.canon(v2): HOLE}) for x in facts
                                     if x[0] in ('in', '!') and S.has(self.canon(x), self.canon(v2)))
                    p = self.pushes.get(a['C'])
                    self.pushes[a['C']] = know if p is None else p & know
                    add.add(('done', 'push', a['C'], self.canon(v2)))
        elif a['ek'] == 'set':
            r = m.role(a['lv'])
            if r in ('afactor', 'dfactor'):
                c = self.conn(a['lv'])
                if c:
                    r = 'active' if r[0] == 'a' else 'disabled'
                    v = self.canon(a['v'])
                    self.sites.add(('fac', r, n.at))
                    add.add(('done', 'fac', r, c[0], c[1], v))
                    may = frozenset(x for x in may if not (x[0] == 'fac' and x[1:4] == (r,) + c))
                    for x in facts:
                        if x[0] == 'done' and x[1] == 'fac' and x[2:5] == (r, c[1], c[0]) and x[5] != v:
                            may = may | {('facne', r, c[0], c[1], n.at)}
                    w = strip(v)
                    if w[0] == 'mem' and w[2] == m.f['cfactor']:
                        cc = self.conn(w)
                        if cc and cc not in (c, (c[1], c[0])):
                            may = may | {('facne', r, c[0], c[1], n.at)}
        return facts | add, may

    def before(self, n, facts, may):
        self.gone = self.was = False
        if n.a['ek'] == 'mut' and n.a.get('key'):
            C, k = self.resolve(n.a['C'], facts), self.resolve(n.a['key'], facts)
            r = self.m.role(C)
            if n.a['op'] == 'erase' and r in ('disabled', 'active'):
                self.gone = self.absent(r, self.holder(C), self.canon(k), facts)
            if r == 'evidences':
                self.was = any(x[0] == 'in' and self.m.role(x[1]) == 'evidences' and self.canon(self.resolve(x[2], facts)) == self.canon(k) for x in facts)
        return facts

    # ------------------------------------------------------------------- loops
    def after_loop(self, n, st):
        facts, may = st
        add, ng = set(), set()
        for x in facts:
            if x[0] != 'all' or x[1][1] != S.lit(0) or x[1][3] != 1:
                continue
            q, body = x[1], x[2]
            alts = body[1] if body[0] == 'or' else ((body,),)
            # loop on the disabled connections: every hidden neighbour is activated or put aside
            tgt, node = set(), None
            ok = True
            for alt in alts:
                hit = False
                for y in alt:
                    if y[0] == 'done' and y[1] in ('push', 'ins'):
                        e = y[3] if y[1] == 'push' else y[4] if y[2] == 'active' else None
                        c = self.elem(e, q, q[4]) if e is not None else None
                        if c is not None and self.m.role(c) == 'disabled' and self.whole(q, c):
                            node = self.holder(c)
                            tgt.add(y[2] if y[1] == 'push' else 'act')
                            hit = True
                    if y[0] == 'in' and self.m.role(y[1]) == 'evidences' and S.any_t(y[2], lambda z: z[0] == 'b'):
                        hit = True
                if not hit:
                    ok = False
            if ok and node is not None:
                for t in tgt:
                    if t == 'act':
                        ng |= {o for o in may if o[0] == 'react' and self.node_is(node, o[1])}
                    else:
                        add.add(('done', 'covered', node, t))
            if body[0] == 'done' and body[1] == 'push':
                c = self.elem(body[3], q, q[4])
                if c is not None and self.m.role(c) == 'active' and self.whole(q, c):
                    add.add(('done', 'coverA', self.holder(c), body[2]))
            if body[0] == 'done' and body[1] == 'del' and body[2] == 'active':
                for nd, e in ((body[3], body[4]), (body[4], body[3])):
                    c = self.elem(e, q, q[4])
                    if c is not None and self.whole(q, c) and ('done', 'coverA', nd, c) in facts:
                        add.add(('done', 'noact', nd))
            # loop on what was put aside
            if body[0] == 'done' and body[1] == 'ins' and body[2] == 'active':
                for nd, e in ((body[3], body[4]), (body[4], body[3])):
                    c = self.elem(e, q, q[4])
                    if c is not None and self.whole(q, c) and ('done', 'covered', nd, c) in facts:
                        ng |= {o for o in may if o[0] == 'react' and self.node_is(nd, o[1])}
        return (facts | add, may - ng) if add or ng else st

    def node_is(self, node, v):
        return v in self.vars_of(node)

    # ------------------------------------------------------------------- exits
    def open(self, st):
        facts, may = st
        out = set()
        for o in may:
            if o[0] == 'dis' and (self.observed(o[1], facts) or self.observed(o[2], facts)):
                continue
            if o[0] == 'ev':
                if any(x[0] == 'done' and x[1] == 'noact' and o[1] in self.vars_of(x[2]) for x in facts):
                    continue
            out.add(o)
        return out


TEXT = {'half': 'the other side of the connection is changed too', 'fac': 'the factor of the new connection is set',
        'facne': 'both sides of the connection hold the factor of that connection', 'kind': 'only hidden nodes get an active connection',
        'dis': 'a connection is disabled only if one of the nodes is observed', 'both': 'a pair is not active and disabled at once',
        'ev': 'a node that becomes observed keeps no active connection', 'react': 'every hidden neighbour of a no longer observed node is reconnected'}


def run(p, rep):
    m = M.Model(p)
    rep.rule('R1', 'on every completing path of the operations: insertions and removals of connections come in mirrored pairs holding the same factor, '
             'out of the opposite kind; active ones only between hidden nodes; no active one is left on observed nodes; removing an evidence reactivates all the '
             'connections toward hidden nodes')
    ents = [f for f in m.entries() if not f.get('cst') and not f.get('ctor')]
    names = {f['n'] for f in ents}
    inner = [f for f in p.fns('EFG::strct::FactorsAware::addDistribution') if f.get('body')]
    kinds = set()
    for f in ents + inner:
        t = S.Sym(p, keep=names | {x['n'] for x in inner}).build(f)
        c = Conn(m, t)
        fl = F.Flow(c, cap=1000)
        ex = fl.run(t)
        if not c.sites:
            continue
        rep.fn(f)
        bad = set()
        for st in ex:
            bad |= c.open(st)
        for o in sorted(bad, key=repr):
            rep.bad('R1', o[-1], '%s: not on every path %s' % (f['q'], TEXT[o[0]]))
        for s in sorted(c.sites, key=repr):
            kinds.add(s[:2])
            if not any(o[-1] == s[-1] for o in bad):
                rep.ok('R1', s[-1], '%s: %s %s' % (f['q'], s[0], s[1]))
    for k in (('ins', 'active'), ('ins', 'disabled'), ('del', 'active'), ('del', 'disabled'), ('ev', 'ins'), ('ev', 'del')):
        if k not in kinds:
            rep.missing('operations: %s %s' % k)
    rep.rule('R2', 'on every completing path: an evidence that is set or changed is sent along all the connections of its variable, a connection inserted toward an '
             'observed variable carries what was observed, and a released variable gets what its still observed neighbours say')
    tot = c02.derived(p, rep, m, 'R2', ('msg', 'em', 'um'))
    for k in ('msg', 'em', 'um'):
        if k not in tot:
            rep.missing('changes: ' + c02.TEXT[k])
