"""The clusters are a partition of the hidden nodes that follows the connections: path-sensitive
effect analysis of the operations that touch nodes, evidences, connections and clusters (calls
inlined, the computation of clusters from a set of nodes analysed apart)."""
import sym as S
import flow as F
import model as M
import seqs as Q
from nodes import NodeClient, strip

ASSUME = ['a node kept under a variable is the node of that variable; before the operation the clusters are a right partition']


def parts_of(p):
    """functions that compute clusters out of a set of nodes"""
    out = []
    for f in p.funcs.values():
        if f.get('body') and not f.get('cls') and 'unordered_set<EFG::strct::Node *' in ' '.join(a.get('t') or '' for a in f['params']) \
                and 'list<EFG::strct::HiddenCluster' in (f.get('rt') or ''):
            out.append(f)
    return out


def distinct(a, b):
    """first and last variable of a group"""
    for x, y in ((a, b), (b, a)):
        if x[0] == 'ix' and x[2] == S.lit(0) and (y == ('back', x[1]) or y == ('ix', x[1], S.lit(1))):
            return True
    return False


class Part(NodeClient):
    def __init__(self, m, tree, makers):
        super().__init__(m, tree)
        self.makers = makers
        self.opaque = set()
        self.made = {}          # local -> computation of clusters it holds

    def wants(self, f):
        if f[0] == 'rel' and f[1] == '==' and (self.clus(f[2]) and self.clus(f[3]) or f[3] == S.lit(1) and self.clus(f[2])):
            return True
        if S.any_t(f, lambda x: x[0] == 'i'):
            return True
        return super().wants(f)

    def clus(self, t):
        return S.any_t(t, lambda x: x[0] == 'mem' and self.m.role(x) in ('cnodes', 'cnodes[]', 'clusters'))

    def assume(self, c, pol, st):
        """a test that was done and whose outcome no change in between can have altered"""
        f, m = st
        mk = [x[2] for x in f if x[0] == 'done' and x[1] == 'nk']
        for a in F.atoms(c, pol):
            b = a[1] if a[0] == '!' else a
            if b[0] == 'in' and self.m.role(b[1]) == 'nodes' and ('done', 't', F.contra(a)) in f \
                    and all(distinct(k, self.canon(b[2])) for k in mk):
                return None
        return super().assume(c, pol, st)

    # ------------------------------------------------------------------- terms
    def cid(self, t):
        """the cluster a term stands for"""
        t = strip(t)
        if t[0] in ('findi', 'pick'):
            q = t[2] if t[0] == 'findi' else t[1]
            c = t[3] if t[0] == 'findi' else t[2]
            C = t[1] if t[0] == 'findi' else None
            if C is not None and self.m.role(C) != 'clusters':
                return None
            hit = [x for x in S.all_t(c, lambda y: y[0] == 'in') if self.m.role(x[1]) in ('cnodes', 'cnodes[]')]
            if hit:
                return ('cl', self.canon(hit[0][2]))
            return None
        if t[0] == 'new' and len(t) > 2 and self.m.role(t[2]) == 'clusters':
            return t
        if t[0] in ('ix', 'back') and self.m.role(t[1]) == 'clusters':
            return self.canon(t)
        return None

    def nodes_cid(self, t):
        """the cluster whose set of nodes a term stands for"""
        t = strip(t)
        if t[0] == 'pick' and strip(t[3])[0] == 'mem' and strip(t[3])[2] == self.m.f['cnodes']:
            return self.cid(t)
        if t[0] == 'mem' and t[2] == self.m.f['cnodes']:
            return self.cid(t[1])
        return None

    def node_of(self, v):
        """the node of the variable"""
        return self.canon(('val', S.mem(S.mem(('this',), self.m.f['state']), self.m.f['nodes']), v))

    def same_node(self, a, b):
        a, b = self.canon(a), self.canon(b)
        return a == b or self.canon(self.var(a)) == self.canon(self.var(b))

    def nodeset(self, t):
        return t[0] == 'var' or self.nodes_cid(t) is not None

    # ------------------------------------------------------------------ events
    def before(self, n, facts, may):
        self.was = False
        if n.a['ek'] == 'mut' and n.a.get('key'):
            C, k = self.resolve(n.a['C'], facts), self.resolve(n.a['key'], facts)
            if self.m.role(C) == 'evidences':
                self.was = any(x[0] == 'in' and self.m.role(x[1]) == 'evidences' and self.canon(self.resolve(x[2], facts)) == self.canon(k) for x in facts)
        # equalities of clusters survive the changes
        add = {('done', 'eq', frozenset((self.cid(self.resolve(x[2], facts)), self.cid(self.resolve(x[3], facts))))) for x in facts
               if x[0] == 'rel' and x[1] == '==' and self.cid(self.resolve(x[2], facts)) and self.cid(self.resolve(x[3], facts))}
        add |= {('done', 'one', self.nodes_cid(self.resolve(x[2][1], facts))) for x in facts
                if x[0] == 'rel' and x[1] == '==' and x[3] == S.lit(1) and x[2][0] == 'size' and self.nodes_cid(self.resolve(x[2][1], facts))}
        return facts | add

    def event(self, n, facts, may):
        a, m = n.a, self.m
        if a['ek'] in ('mut', 'set', 'decl'):
            a = {k: self.resolve(v, facts) if isinstance(v, tuple) else v for k, v in a.items()}
        add = set()
        if a['ek'] == 'mut':
            C = a['C']
            r = m.role(C)
            k = self.canon(a['key']) if a.get('key') else None
            if r == 'nodes' and k is not None and a['op'] in ('insert', '[]'):
                add.add(('done', 'nk', k))
                if a['op'] == 'insert':
                    self.sites.add(('node', n.at))
                    may = may | {('node', k, n.at)}
            elif r == 'nodes':
                self.opaque.add(n.at)
            elif r == 'variables':
                if a['op'] in ('push', 'insert') and (a.get('v') or a.get('key')):
                    add.add(('done', 'var', self.canon(a.get('v') or a.get('key'))))
                else:
                    add.add(('done', 'var?'))
            elif r == 'evidences':
                if a['op'] in ('insert', '[]') and k is not None:
                    if not self.was:
                        self.sites.add(('ev', n.at))
                        facts = frozenset(x for x in facts if x[:2] != ('done', 'rebuild'))
                        may = frozenset(x for x in may if x[0] != 'un' or x[1] != k) | {('ev', k, n.at)}
                elif a['op'] == 'erase':
                    self.sites.add(('un', n.at))
                    facts = frozenset(x for x in facts if x[:2] not in (('done', 'rebuild'), ('done', 'wrong')))
                    may = may | {('un', k, n.at)}
                elif a['op'] == 'clear':
                    self.sites.add(('un', n.at))
                    facts = frozenset(x for x in facts if x[:2] not in (('done', 'rebuild'), ('done', 'wrong')))
                    may = may | {('un', None, n.at)}
            elif r == 'active' and k is not None:
                if a['op'] in ('insert', '[]'):
                    h = self.holder(C)
                    if not any(x[0] == 'conn' and {x[1], x[2]} == {h, k} for x in may):
                        self.sites.add(('conn', n.at))
                        may = may | {('conn', h, k, n.at)}
                    facts = frozenset(x for x in facts if x[:2] != ('done', 'rebuild'))
            elif r == 'clusters':
                if a['op'] == 'erase' and k is not None:
                    c = self.cid(a['key'])
                    self.sites.add(('erase', n.at))
                    if c is None:
                        add.add(('done', 'cl?'))
                    else:
                        add.add(('done', 'cerase', c))
                        if not any(x[0] == 'done' and x[1] == 'merge' and x[3] == c for x in facts):
                            may = may | {('lost', c, n.at)}
                elif a['op'] == 'push' and not a.get('v'):
                    pass
                elif a['op'] == 'push' and a.get('v'):
                    v = S.sub(self.canon(a['v']), self.made)
                    if v[0] in ('ix', 'back') and v[1][0] == 'call' and v[1][1] in self.makers:
                        add.add(('done', 'cpush', v))
                    else:
                        add.add(('done', 'cl?'))
                elif a['op'] == 'insert_all' and a.get('key') and self.canon(a['key'])[0] == 'call' and self.canon(a['key'])[1] in self.makers:
                    add.add(('done', 'cpushall', self.canon(a['key'])))
                elif a['op'] != 'reserve':
                    add.add(('done', 'cl?'))
            elif r in ('cnodes', 'cnodes[]') or C[0] == 'var':
                c = self.nodes_cid(C)
                if a['op'] == 'insert_all' and a.get('key') is not None:
                    b = self.nodes_cid(a['key'])
                    if c is not None and b is not None:
                        self.sites.add(('merge', n.at))
                        add.add(('done', 'merge', c, b))
                        may = may | {('dup', c, b, n.at)}
                    elif c is not None:
                        add.add(('done', 'cl?'))
                    elif b is not None:
                        add.add(('done', 'copy', C, b))
                elif a['op'] in ('insert', '[]', 'push') and (k is not None or a.get('v')):
                    e = k if k is not None else self.canon(a['v'])
                    if c is not None:
                        add.add(('done', 'incl', e, c))
                    else:
                        add.add(('done', 'fill', C, e))
                elif a['op'] == 'erase' and k is not None:
                    add.add(('done', 'xerase', c or C, k))
                    facts = frozenset(x for x in facts if x != ('done', 'incl', k, c))
        elif a['ek'] == 'decl' and a.get('lv') is not None and a.get('v') is not None:
            b = self.nodes_cid(a['v'])
            if b is not None:
                add.add(('done', 'copy', a['lv'], b))
            v = self.canon(a['v'])
            if v[0] == 'call' and v[1] in self.makers:
                self.made[a['lv']] = v
        elif a['ek'] == 'set':
            lv = a['lv']
            r = m.role(lv)
            t = strip(lv)
            if t[0] == 'mem' and t[2] == m.f['nvar']:
                add.add(('done', 'nvar', self.canon(t[1]), self.canon(a['v'])))
            if r == 'nodes[]' and a['op'] == '=' and t[0] == 'val':
                self.sites.add(('node', n.at))
                may = may | {('node', self.canon(t[2]), n.at)}
            if r == 'clusters':
                v = S.sub(self.canon(a['v']), self.made)
                self.sites.add(('rebuild', n.at))
                if v[0] == 'call' and v[1] in self.makers and v[3]:
                    g = self.full(v[3][0], facts)
                    if g is True:
                        add.add(('done', 'rebuild'))
                    elif g is False:
                        add.add(('done', 'wrong', n.at))
                    else:
                        add.add(('done', 'cl?'))
                else:
                    add.add(('done', 'cl?'))
            elif r == 'cnodes':
                c = self.nodes_cid(lv)
                b = self.nodes_cid(a['v'])
                if b is None or c is None:
                    add.add(('done', 'cl?'))
        elif a['ek'] == 'call' and not a.get('cst') and a.get('o') is not None:
            o = self.resolve(a['o'], facts)
            if m.role(o) in ('clusters', 'cnodes', 'cnodes[]', 'clusters[]'):
                add.add(('done', 'cl?'))
        return facts | add, may

    def full(self, X, facts):
        """X holds exactly the nodes that are not observed: True / False / None"""
        X = strip(X)
        res = None
        for x in facts:
            if x[0] != 'all':
                continue
            q, body = x[1], x[2]
            alts = body[1] if body[0] == 'or' else ((body,),)
            ins = [[y for y in alt if y[0] == 'done' and y[1] == 'fill' and y[2] == X] for alt in alts]
            if not any(ins):
                continue
            el = [y[3] for i in ins for y in i]
            cs = [self.elem(e, q, q[4]) for e in el]
            if any(c is None or self.m.role(c) != 'nodes' for c in cs):
                continue
            if q[1] != S.lit(0) or q[3] != 1 or not self.whole(q, cs[0]):
                return False
            ok = True
            for alt, i in zip(alts, ins):
                obs = any(y[0] == 'in' and self.m.role(y[1]) == 'evidences' for y in alt)
                hid = any(y[0] == '!' and y[1][0] == 'in' and self.m.role(y[1][1]) == 'evidences' for y in alt)
                if bool(i) == obs or i and not hid:
                    # the condition may have been factored out of the alternatives
                    ok = False
            if body[0] != 'or':
                d = [y for y in facts if y[0] == 'all' and y[1] == q and y[2][0] == '!' and y[2][1][0] == 'in' and self.m.role(y[2][1][1]) == 'evidences']
                ok = bool(d)
            if ok:
                return True
            res = False
        return res

    def after_loop(self, n, st):
        facts, may = st
        add, ops = set(), set()
        for x in facts:
            if x[0] == 'all' and x[2][0] == 'done' and x[2][1] == 'incl' and x[1][1] == S.lit(0) and x[1][3] == 1:
                c = self.elem(x[2][2], x[1], x[1][4])
                b = self.nodes_cid(c) if c is not None else None
                if b is not None and self.whole(self.resolve(x[1], facts), c) and ('done', 'merge', x[2][3], b) not in facts:
                    add.add(('done', 'merge', x[2][3], b))
                    ops.add(('dup', x[2][3], b, n.at))
        return (facts | add, may | ops) if add else st

    # ------------------------------------------------------------------- exits
    def open(self, st):
        facts, may = st
        out = set()
        D = {x[1:] for x in facts if x[0] == 'done'}
        unk = ('cl?',) in D
        rebuilt = ('rebuild',) in D
        wrong = {x for x in D if x[0] == 'wrong'}
        for w in wrong:
            out.add(('wrong', False, w[1]))
        erased = {x[1] for x in D if x[0] == 'cerase'}

        def where(h):
            for x in D:
                if x[0] == 'incl' and self.same_node(x[1], h):
                    return x[2]
            return ('cl', h)

        def samecl(a, b):
            return a == b or a[0] == b[0] == 'cl' and self.same_node(a[1], b[1])

        merges = {(x[1], x[2]) for x in D if x[0] == 'merge'}
        eqs = [set(x[1]) for x in D if x[0] == 'eq']
        evs = [o[1] for o in may if o[0] == 'ev']
        for o in may:
            if o[0] == 'node':
                h = self.node_of(o[1])
                if ('var', o[1]) not in D and ('var?',) not in D:
                    out.add(('nodevar', False, o[-1]))
                if not any(x[0] == 'nvar' and self.same_node(x[1], h) for x in D):
                    out.add(('nodename', False, o[-1]))
                if not any(x[0] == 'incl' and self.same_node(x[1], h) for x in D) and not rebuilt:
                    out.add(('nodecl', None if unk else False, o[-1]))
            elif o[0] == 'ev' and not rebuilt:
                h = self.node_of(o[1])
                mine = [c for c in erased if c[0] == 'cl' and (self.same_node(c[1], h) or self.canon(self.var(c[1])) == o[1] or
                                                              self.canon(S.mem(c[1], self.m.f['nvar'])) == o[1])]
                if not mine:
                    out.add(('evkeep', None if unk or wrong else False, o[-1]))
                    continue
                c = mine[0]
                if any(x[0] == 'one' and samecl(x[1], c) for x in D):
                    continue
                g = self.split(c, facts, D)
                if g is not True:
                    out.add(('evsplit', None if unk else g, o[-1]))
            elif o[0] == 'un' and not rebuilt:
                if o[1] is not None and o[1] in evs:
                    continue
                out.add(('un', None if unk or wrong or any(x[0] in ('incl', 'merge', 'cpush', 'cpushall') for x in D) else False, o[-1]))
            elif o[0] == 'conn' and not rebuilt:
                a, b = where(o[1]), where(o[2])
                if any(samecl(x, a) and samecl(y, b) or samecl(x, b) and samecl(y, a) for x, y in merges):
                    continue
                if any(all(any(samecl(z, w) for z in e) for w in (a, b)) for e in eqs if None not in e):
                    continue
                if ('un',) in {x[:1] for x in may}:
                    continue        # reported there
                out.add(('conn', None if unk or wrong else False, o[-1]))
            elif o[0] == 'lost' and not rebuilt:
                if any(o[1][0] == 'cl' and (self.canon(self.var(o[1][1])) == v or self.canon(S.mem(o[1][1], self.m.f['nvar'])) == v) for v in evs):
                    continue
                out.add(('lost', None if unk else False, o[-1]))
            elif o[0] == 'dup' and not rebuilt:
                if o[2] not in erased:
                    out.add(('dup', None if unk else False, o[-1]))
        return out

    def split(self, c, facts, D):
        """the nodes left in the cluster are clustered again and all put back"""
        best = None
        for x in facts | {('done',) + d for d in D}:
            call = None
            whole = True
            if x[0] == 'all' and x[2][0] == 'done' and x[2][1] == 'cpush':
                e = x[2][2]
                if e[0] == 'ix' and e[2] == ('b', x[1][4]):
                    call = e[1]
                    whole = x[1][1] == S.lit(0) and x[1][3] == 1 and S.sub(x[1][2], self.made) == ('size', call)
            elif x[0] == 'done' and x[1] == 'cpushall':
                call = x[2]
            elif x[0] == 'done' and x[1] == 'cpush' and x[2][0] in ('ix', 'back') and not S.any_t(x[2][2:], lambda y: y[0] in ('i', 'b', 'phi')):
                call, whole = x[2][1], False
            if call is None or not call[3]:
                continue
            X = strip(call[3][0])
            cp = [d for d in D if d[0] == 'copy' and d[1] == X] or ([1] if self.nodes_cid(X) == c else [])
            er = [d for d in D if d[0] == 'xerase' and (d[1] == X or d[1] == c) and self.same_node(d[2], c[1])]
            if cp and er and whole:
                return True
            if cp:
                best = False
        if best is None and not any(d[0] in ('cpush', 'cpushall', 'cl?') for d in D) \
                and not any(x[0] == 'all' and x[2][0] == 'done' and x[2][1] == 'cpush' for x in facts):
            return False
        return best


TEXT = {'nodevar': 'a new node has its variable listed', 'nodename': 'a new node knows its variable', 'nodecl': 'a new node enters a cluster',
        'evkeep': 'the cluster of a newly observed node is taken apart', 'evsplit': 'what remains of that cluster, and only that, is clustered again',
        'un': 'after an evidence is removed the clusters are computed again', 'conn': 'two nodes that get connected end in the same cluster',
        'lost': 'no node is lost with the cluster that is erased', 'dup': 'a merged cluster is erased', 'wrong': 'the clusters are computed out of exactly the hidden nodes'}


class Make(NodeClient):
    """computation of the clusters of a set of nodes"""

    def __init__(self, m, tree, par):
        super().__init__(m, tree)
        self.par = par
        self.soft = False       # joined in one of the clusters found
        self.sites = set()
        self.bad = set()
        self.loops = {}
        self.walk(tree, [])

    def walk(self, n, stack):
        if n.k == 'loop':
            self.loops[n.a['lid']] = n
            self.walk(n.a['body'], stack + [n])
            return
        if n.k in ('break',) and stack:
            stack[-1].a['_brk'] = True
        for x in (n.a.get('s') or ()):
            self.walk(x, stack)
        for z in ('a', 'b'):
            if n.k in ('if', 'scope') and hasattr(n.a.get(z), 'k'):
                self.walk(n.a[z], stack)

    def wants(self, f):
        if f[0] == 'rel' and f[1] == '==':
            return True
        return super().wants(f)

    def elem_of(self, t, pred):
        t = strip(t)
        return t[0] == 'ix' and pred(t[1])

    def found(self, t):
        """key of the search among the clusters built so far"""
        for x in S.all_t(t, lambda y: y[0] in ('pick', 'findi')):
            for y in S.all_t(x, lambda z: z[0] == 'in'):
                if y[1][0] == 'ix' and y[1][1][0] == 'var':
                    return y[2], y[1][1]
        return None

    def node(self, t):
        t = strip(t)
        return t[0] == 'ix' and t[1] == self.par

    def event(self, n, facts, may):
        a = n.a
        add = set()
        if a['ek'] == 'mut':
            C = strip(a['C'])
            v = a.get('v') if a['op'] == 'push' else a.get('key')
            v = strip(v) if v else None
            if a['op'] in ('insert', 'push') and v is not None and self.node(v):
                self.sites.add(('place', n.at))
                add.add(('done', 'placed', v))
                if C[0] == 'val' or C[0] == 'deref':
                    may = self.close(may, facts, C[1])
            if C[0] == 'var' and a['op'] in ('push', 'insert', '[]') and v is not None:
                g = self.found(v)
                if g is not None:
                    self.record(n, C, g)
                    may = may | {('nb', C, n.at)}
            if a['op'] == 'insert_all' and v is not None:
                self.sites.add(('join', n.at))
                if C[0] != 'new':
                    self.soft = True
                add.add(('done', 'joined', v))
            if a['op'] == 'erase' and v is not None:
                self.sites.add(('erase', n.at))
                if not any(x[0] == 'done' and x[1] == 'joined' and x[2] == v for x in facts):
                    if v[0] in ('val', 'ix', 'deref', 'pick', 'findi'):
                        may = may | {('lost', v, n.at)}
        elif a['ek'] == 'call' and a['n'] in ('emplace', 'insert', 'push_back') and a.get('args'):
            if any(self.node(x) for x in a['args']):
                self.sites.add(('place', n.at))
                for x in a['args']:
                    if self.node(x):
                        add.add(('done', 'placed', strip(x)))
                o = strip(a['o']) if a.get('o') else ('nil',)
                if o[0] in ('val', 'ix'):
                    may = self.close(may, facts, o[1])
        return facts | add, may

    def before(self, n, facts, may):
        self.pre = facts
        return facts

    def close(self, may, facts, coll):
        if any(x[0] == 'rel' and x[1] == '==' and x[2] == S.size(coll) and x[3] == S.lit(1) for x in self.pre):
            return frozenset(x for x in may if not (x[0] == 'nb' and x[1] == coll))
        return may

    def record(self, n, C, g):
        self.sites.add(('nb', n.at))
        for ctx in self.ctxs.get(id(n), ()):
            cs = [x for x in ctx if x[0] == 'if']
            if Q.loops(ctx) and any(sized(x[1]) for x in cs):
                self.bad.add(('nball', n.at))
        key = strip(g[0])
        if key[0] in ('key',) and key[2][0] == 'i':
            r = self.m.role(key[1])
            h = self.holder(key[1])
            lp = self.loops.get(key[2][1])
            if r != 'active' or not self.node(h):
                self.bad.add(('nbkind', n.at))
            elif lp is not None and (lp.a.get('lo') != S.lit(0) or lp.a.get('step') != 1 or lp.a.get('_brk') or lp.a.get('hi') != S.size(key[1])):
                self.bad.add(('nball', n.at))

    def assume(self, c, pol, st):
        st = super().assume(c, pol, st)
        f, may = st
        for a in F.atoms(c, pol):
            if a[0] == 'rel' and a[1] == '==' and a[2][0] == 'size' and a[3] == S.lit(0):
                may = frozenset(x for x in may if not (x[0] == 'nb' and x[1] == a[2][1]))
        return f, may

    def after_loop(self, n, st):
        facts, may = st
        ng = set()
        for x in facts:
            if x[0] == 'all' and x[2][0] == 'done' and x[2][1] == 'joined':
                c = self.elem(x[2][2], x[1], x[1][4])
                if c is not None and x[1][1] == S.lit(0) and x[1][3] == 1 and self.whole(x[1], c):
                    ng |= {o for o in may if o[0] == 'nb' and o[1] == c}
        return (facts, may - ng) if ng else st


MTEXT = {'place': 'every node of the set enters a cluster', 'nb': 'every cluster found among the neighbours is joined',
         'nbkind': 'the neighbours are those of the active connections of the node', 'nball': 'all the active connections are looked at',
         'lost': 'a cluster is erased only after its nodes were moved', 'join': 'nodes are joined', 'erase': 'joined cluster is erased'}


def indexed(t):
    return t[0] == 'i' or t[0] in ('+', '-', '*', '/', '%') and any(isinstance(x, tuple) and indexed(x) for x in t[1:])


def sized(c):
    """a comparison of amounts other than a test for emptiness"""
    if c[0] == '!':
        return sized(c[1])
    if c[0] in ('&&', '||'):
        return sized(c[1]) or sized(c[2])
    if c[0] == 'rel' and all(Q.arith(x) or x[0] == 'size' for x in c[2:4]):
        return not any(x == S.lit(0) for x in c[2:4]) and not any(indexed(x) for x in c[2:4])
    return False


def listing(p, rep, m):
    """the variables listed as hidden / observed are those of all the clusters / evidences"""
    for nm in ('getHiddenVariables', 'getObservedVariables'):
        for f in p.fns('EFG::strct::StateAware::' + nm):
            if not f.get('body'):
                continue
            rep.fn(f)
            evs = Q.walk(S.Sym(p).build(f))
            res = {strip(n.a['v']) for n, c in evs if n.k == 'ret' and n.a.get('v')}
            ins = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'mut' and strip(n.a['C']) in res and n.a['op'] in ('insert', 'push', '[]')]
            v = None
            if len(ins) == 1 and not any(n.k == 'ev' and n.a['ek'] == 'opq' for n, c in evs):
                n, ctx = ins[0]
                k = strip(n.a.get('key') or n.a.get('v') or ('nil',))
                if nm == 'getHiddenVariables' and k[0] == 'mem' and k[2] == m.f['nvar']:
                    k = strip(k[1])
                idx = []
                t = k
                ok = True
                while t[0] in ('ix', 'key', 'ent', 'mem', 'val', 'deref', 'addr'):
                    if t[0] == 'val' and t[2] == ('key', t[1], t[2][-1]):
                        t = t[2]
                    if t[0] in ('ix', 'key', 'ent'):
                        idx.append((t[1], t[2]))
                    t = t[1]
                roles = [m.role(c) for c, i in idx]
                want = [['cnodes', 'clusters']] if nm == 'getHiddenVariables' else [['evidences']]
                if roles in want:
                    vs = []
                    for c, i in idx:
                        if S.is_num(i):
                            vs.append(False)
                            continue
                        lp = Q.loop_of(ctx, i[1]) if i[0] == 'i' else None
                        lp = lp or next((x for x in Q.loops(ctx) if ('i', x[1].a['lid']) == i), None)
                        if lp is None:
                            vs.append(None)
                        elif lp[2]:
                            vs.append(False if any(not cs or all(sized(x[1]) for x in cs) for cs in Q.exits(lp[1].a['body'])) else None)
                        else:
                            vs.append(Q.covers(lp, lambda h: h == S.size(c)))
                    for c in Q.conds(ctx):
                        vs.append(False if sized(c[1]) else None)
                    v = Q.worst(vs)
            rep.judge(v, 'R3', ins[0][0].at if ins else (f['file'], f['l']), f['q'] + ': the variables of all the %s are listed' % ('nodes of all the clusters' if nm == 'getHiddenVariables' else 'evidences'))


def run(p, rep):
    m = M.Model(p)
    rep.rule('R3', 'the hidden / observed variables that are reported are those of every node of every cluster / of every evidence')
    listing(p, rep, m)
    rep.rule('R1', 'on every completing path of the operations: new nodes enter variables, nodes and one cluster; a newly observed node leaves its cluster, which is '
             'clustered again; connected nodes share a cluster (merged without losing nodes); removed evidences imply clusters computed from exactly the hidden nodes')
    rep.rule('R2', 'the computation of the clusters places every node of the set, looks at all of its active connections and joins all the clusters found there')
    mk = parts_of(p)
    names = {f['n'] for f in mk}
    ents = [f for f in m.entries() if not f.get('cst') and not f.get('ctor')]
    en = {f['n'] for f in ents}
    inner = [f for f in p.fns('EFG::strct::FactorsAware::addDistribution') if f.get('body')]
    kinds = set()
    for f in ents + inner:
        t = S.Sym(p, keep=names | en | {x['n'] for x in inner}).build(f)
        c = Part(m, t, names)
        fl = F.Flow(c, cap=1000)
        ex = fl.run(t)
        if not c.sites:
            continue
        rep.fn(f)
        bad, und = set(), set()
        for st in ex:
            for o in c.open(st):
                (und if o[1] is None else bad).add((o[0], o[-1]))
        for o in sorted(bad, key=repr):
            rep.bad('R1', o[1], '%s: not on every path %s' % (f['q'], TEXT[o[0]]))
        for o in sorted(und - bad, key=repr):
            rep.und('R1', o[1], '%s: %s' % (f['q'], TEXT[o[0]]))
        for s in sorted(c.sites, key=repr):
            kinds.add(s[0])
            if not any(o[-1] == s[-1] for o in bad | und):
                rep.ok('R1', s[-1], '%s: %s' % (f['q'], s[0]))
    for k in ('node', 'ev', 'un', 'conn'):
        if k not in kinds:
            rep.missing('operations: ' + k)
    for f in mk:
        t = S.Sym(p).build(f)
        nbconds = {}
        for n, ctx in Q.walk(t):
            if n.k == 'ev' and n.a['ek'] == 'mut':
                nbconds.setdefault(id(n), []).append(ctx)
        par = [('p', i, a['n']) for i, a in enumerate(f['params']) if 'unordered_set' in (a.get('t') or '')]
        c = Make(m, t, par[0])
        c.ctxs = nbconds
        ex = F.Flow(c, cap=1000).run(t)
        rep.fn(f)
        bad = set(c.bad)
        for facts, may in ex:
            if any(x[0] == 'rel' and x[1] == '==' and x[2] == S.size(par[0]) and x[3] == S.lit(0) for x in facts):
                continue
            if any(s[0] == 'nb' for s in c.sites):
                for o in may:
                    bad.add((o[0], o[-1]))
            pl = [x for x in facts if x[0] == 'all' and x[2][0] == 'done' and x[2][1] == 'placed']
            ok = any(x[1][1] == S.lit(0) and x[1][3] == 1 and c.elem(x[2][2], x[1], x[1][4]) == par[0] and c.whole(x[1], par[0]) for x in pl)
            if not ok:
                for s in c.sites:
                    if s[0] == 'place':
                        bad.add(('place', s[1]))
        if not c.sites:
            rep.und('R2', (f['file'], f['l']), '%s: not the expected way of clustering' % f['q'])
        elif not any(s[0] == 'nb' for s in c.sites):
            for o in sorted(bad, key=repr):
                rep.und('R2', o[1], '%s: %s' % (f['q'], MTEXT[o[0]]))
            continue
        for o in sorted(bad, key=repr):
            if c.soft and o[0] in ('nb', 'lost'):
                rep.und('R2', o[1], '%s: %s' % (f['q'], MTEXT[o[0]]))
                continue
            rep.bad('R2', o[1], '%s: not on every path: %s' % (f['q'], MTEXT[o[0]]))
        for s in sorted(c.sites, key=repr):
            if not any(o[-1] == s[-1] for o in bad):
                rep.ok('R2', s[-1], '%s: %s' % (f['q'], MTEXT[s[0]]))
    if not mk:
        rep.missing('computation of clusters')
