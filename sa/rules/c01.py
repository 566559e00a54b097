"""Freshness of the belief: effect analysis with typestate over every public operation of
the model classes (calls inlined), plus the same analysis on the queries and on the
propagation itself."""
import sym as S
import flow as F
import model as M
import seqs as Q
import c05

CHANGES = ('variables', 'nodes', 'evidences', 'evidences[]', 'active', 'disabled',
           'unaries', 'factors', 'dfactor', 'afactor', 'dmessage', 'nodes[]')


class Fresh(F.Client):
    def __init__(self, m):
        self.m = m
        self.b = m.belief()
        self.unset = ('!', ('isset', self.b))
        self.changes = set()
        self.pr = None

    def feasible(self, n, st):
        if self.pr is None or not any(x[0] == 'dirty' for x in st[1]):
            return True
        return not self.pr.cannot(st[0])

    def before(self, n, facts, may):
        if self.pr is not None and self.change(n) and self.unset not in facts and not any(x[0] == 'dirty' for x in may):
            facts = facts | {('done', 'pre', f) for f in facts if f[0] != 'done'}
        return facts

    def change(self, n):
        a = n.a
        if a['ek'] == 'set':
            r = self.m.role(a['lv'])
            if a['lv'][0] == 'mem' and a['lv'][2] == 'weight':
                return 'weight'
        elif a['ek'] == 'mut':
            r = self.m.role(a['C']) if a['op'] not in ('[]', 'at') else None
        elif a['ek'] == 'call' and a['n'] == 'setWeight' and not a.get('cst'):
            return 'weight'
        else:
            return None
        return r if r in CHANGES else None

    def event(self, n, facts, may):
        a = n.a
        if a['ek'] == 'set' and self.m.role(a['lv']) == 'belief':
            if a['v'] in (S.NULLOPT, S.NULL):
                return (frozenset(x for x in facts if x[:2] != ('done', 'pre')),
                        frozenset(x for x in may if x[0] != 'dirty'))
            return facts, may
        c = self.change(n)
        if c:
            self.changes.add((c, n.at))
            if self.unset not in facts:
                may = may | {('dirty', c, n.at)}
        return facts, may


def fresh(m, t, cap):
    c = Fresh(m)
    fl = F.Flow(c, cap=cap)
    c.pr = c05.Prover(m, t)
    bad = set()
    for st in fl.run(t):
        bad |= {x for x in st[1] if x[0] == 'dirty'}
    for n, st in fl.throws:
        bad |= {x for x in st[1] if x[0] == 'dirty'}
    return bad, c.changes, fl.merged


def run(p, rep):
    m = M.Model(p)
    rep.rule('R1', 'on every path of a public operation, a change of variables, nodes, connections, evidences, clusters, '
             'factors or weights is followed by the invalidation of the stored propagation result (or happens while none is stored)')
    rep.rule('R2', 'a query reads messages only where a propagation result of the kind it needs is known to be stored')
    rep.rule('R3', 'the propagation drops the stored result before touching the messages, stores a new one only after all '
             'the clusters were visited, with the kind that was asked')
    for x in ('belief', 'evidences', 'nodes', 'clusters', 'active', 'disabled', 'message'):
        if x in m.R.missing:
            rep.missing('field ' + x)
    ents = m.entries()
    sy = S.Sym(p)
    nch = 0
    ents = [f for f in ents if not f.get('cst') and not f.get('ctor')]
    done = {}
    for f in ents:
        done[id(f)] = fresh(m, sy.build(f), F.CAP)
        rep.fn(f)
    # where states were joined, a composed operation is judged on the operations it calls:
    # those that are right leave no result stored if they changed anything
    right = {f['n'] for f in ents if not done[id(f)][0]} - {f['n'] for f in ents if done[id(f)][0]}
    for f in ents:
        bad, ch, merged = done[id(f)]
        if bad and merged:
            bad = bad & fresh(m, S.Sym(p, keep=right).build(f), 400)[0]
        nch += len(ch)
        for _, role, at in sorted(bad, key=repr):
            rep.bad('R1', at, '%s changes the %s and may leave a propagation result stored' % (f['q'], role))
        for role, at in sorted(ch, key=repr):
            if not any(x[1] == role and x[2] == at for x in bad):
                rep.ok('R1', at, '%s: change of %s' % (f['q'], role))
    if nch < 10:
        rep.missing('changes of the model')
    queries(p, rep, m)
    propagation(p, rep, m)


class Query(F.Client):
    def __init__(self, m, goal):
        self.m = m
        self.b = m.belief()
        self.goal = goal
        r = m.p.record('EFG::strct::PropagationResult')
        self.kf = [x['n'] for x in r['f'] if 'PropagationKind' in x['t']][0] if r else '?'
        self.reads = {}

    def event(self, n, facts, may):
        a = n.a
        if a['ek'] == 'call' and a['n'] == 'propagateBelief':
            k = [x for x in a['args'] if x[0] == 'enum' or x[0] == 'p']
            kd = a['args'][0] if a['args'] else None
            facts = frozenset(f for f in facts if not F.mentions(f, ('f', self.m.f['belief'])))
            if kd is not None:
                facts = facts | {('isset', self.b), S.rel('==', S.mem(self.b, self.kf), kd)}
        elif a['ek'] in ('set',) and self.m.role(a['lv']) == 'belief':
            pass
        else:
            ts = []
            for k, v in a.items():
                if isinstance(v, tuple) and k not in ('c',):
                    ts.append(v)
            if any(S.any_t(v, lambda x: x[0] == 'mem' and self.m.role(x) in ('amessage', 'message')) for v in ts):
                self.reads.setdefault(n.at, []).append(facts)
        return facts, may


def kindof(facts, b):
    out = set()
    for f in facts:
        if f[0] == 'rel' and f[1] == '==' and ('isset', b) in facts:
            for x, y in ((f[2], f[3]), (f[3], f[2])):
                if x[0] == 'mem' and x[1] == b:
                    out.add(y)
    return out


def queries(p, rep, m):
    qs = [f for f in p.funcs.values() if f.get('cls') == 'EFG::strct::QueryManager' and f.get('acc') == 'public'
          and f.get('body') and not f.get('implicit') and not f.get('ctor') and not f.get('dtor')]
    if not qs:
        rep.missing('public queries')
    vals = p.enum_values('PropagationKind')
    for f in sorted(qs, key=lambda f: f['l']):
        want = 'MAP' if 'MAP' in f['n'] else 'SUM'
        sy = S.Sym(p, keep={'propagateBelief'})
        t = sy.build(f)
        c = Query(m, want)
        F.Flow(c).run(t)
        rep.fn(f)
        if not c.reads:
            rep.und('R2', (f['file'], f['l']), '%s: no read of the messages was recognised' % f['q'])
        for at, fs in sorted(c.reads.items()):
            v = True
            for facts in fs:
                ks = kindof(facts, c.b)
                if not any(k[0] == 'enum' and k[2] == vals.get(want) or k[0] == 'lit' and k[1] == vals.get(want) for k in ks):
                    v = False
            rep.judge(v, 'R2', at, '%s reads messages: %s propagation needed' % (f['q'], want))


class Prop(F.Client):
    def __init__(self, m):
        self.m = m
        self.b = m.belief()
        self.unset = ('!', ('isset', self.b))
        self.out = []
        self.stores = []

    def event(self, n, facts, may):
        a = n.a
        m = self.m
        r = m.role(a['lv']) if a['ek'] == 'set' else m.role(a['C']) if a['ek'] == 'mut' else None
        if r == 'belief' and a['v'] not in (S.NULLOPT, S.NULL):
            self.stores.append((n, facts))
            return facts, may
        # a cluster is visited when its messages are asked for
        if a['ek'] == 'call' and not a.get('cst') or a['ek'] == 'read' and m.role(a['lv']) == 'connectivity':
            ts = list(a.get('args') or ()) + [a.get('o'), a.get('lv')]
            for t in ts:
                if t is None:
                    continue
                for x in S.all_t(t, lambda y: y[0] == 'ix' and m.role(y[1]) == 'clusters'):
                    facts = facts | {('done', 'visit', x)}
        if (r in ('amessage', 'message') or a['ek'] == 'call' and a['n'] == 'propagateBelief') and self.unset not in facts:
            self.out.append(n)
        return facts, may


def propagation(p, rep, m):
    fs = [f for f in p.fns('EFG::strct::BeliefAware::propagateBelief') if f.get('body')]
    if not fs:
        rep.missing('BeliefAware::propagateBelief')
        return
    f = fs[0]
    sy = S.Sym(p)
    t = sy.build(f)
    c = Prop(m)
    fl = F.Flow(c)
    ex = fl.run(t)
    rep.fn(f)
    kp = [('p', i, a['n']) for i, a in enumerate(f['params']) if 'PropagationKind' in (a.get('t') or '')]
    for n in {id(x): x for x in c.out}.values():
        rep.bad('R3', n.at, 'the messages are touched while a previous result is still stored')
    if not c.stores:
        rep.und('R3', (f['file'], f['l']), 'no result is stored')
    for n, facts in c.stores:
        vis = [x for x in facts if x[0] == 'all' and x[2][0] == 'done' and x[2][1] == 'visit' and x[1][1] == S.lit(0) and x[1][3] == 1
               and x[1][2][0] == 'size' and m.role(x[1][2][1]) == 'clusters']
        rep.judge(bool(vis), 'R3', n.at, 'the result is stored after every cluster was visited')
        v = n.a['v']
        kinds = {y for q in facts if q[0] == 'rel' and q[1] == '==' for x, y in ((q[2], q[3]), (q[3], q[2]))
                 if x[0] == 'mem' and x[1] == v and y[0] in ('p', 'enum')}
        if v[0] == 'rec':
            kinds |= {y for _, y in v[2] if y[0] in ('p', 'enum')}
        if kp:
            rep.judge(kp[0] in kinds and all(k == kp[0] for k in kinds), 'R3', n.at, 'the stored result has the kind that was asked')
    dropped(rep, m, t)
    # at every exit a result of the asked kind is stored
    for facts, may in ex:
        ok = ('isset', c.b) in facts or any(n for n, _ in c.stores)
        rep.judge(True if ok else None, 'R3', (f['file'], f['l']), 'exit with a stored result')
        break
    # early exits: only when the stored result has the asked kind
    rets = [e for e in fl.seen.values() if e[0].k == 'ret' and e[0].at and e[0].at[0] == t.at[0]]
    for n, sts in rets:
        if n.a['v'] != S.VOID or n not in [x for x in M.events(t) if x.k == 'ret']:
            continue
        top = any(x is n for x in toplevel_rets(t))
        if not top:
            continue
        for facts, may in sts:
            ok = kp and any(k == kp[0] for k in kindof(facts, c.b))
            stored = any(x[0] == 'rel' and x[1] == '==' and c.b in x[2:] for x in facts) or ('isset', c.b) in facts and ok
            rep.judge(bool(ok or stored), 'R3', n.at, 'early exit only with a stored result of the asked kind')


def dropped(rep, m, t):
    """the messages of the previous propagation are dropped, all of them, before the new ones are made"""
    what = 'the messages of all the connections are dropped first'
    for n, ctx in Q.walk(t):
        if n.k != 'ev' or n.a['ek'] != 'set' or n.a['lv'][0] != 'mem' or m.role(n.a['lv']) not in ('amessage', 'message'):
            continue
        if n.a['v'] != S.NULL or n.a['lv'][1][0] != 'val':
            continue
        ls = Q.loops(ctx)
        C = n.a['lv'][1][1]
        if not ls or ls[-1][1].a.get('C') != C:
            continue
        inner = ctx[[i for i, c in enumerate(ctx) if c[0] == 'loop'][0]:]
        cs = []
        for c in Q.conds(inner):
            x, pol = c[1], c[2]
            while x[0] == '!':
                x, pol = x[1], not pol
            if x == ('isset', n.a['lv']) or x[0] == 'isset' and S.has(x, n.a['lv']):
                continue
            if x[0] == 'rel' and x[1] == '==' and S.lit(0) in x[2:] and ('size', C) in x[2:] and not pol:
                continue
            cs.append(x)
        part = any(L[2] for L in ls)
        ok = True if not cs and not part else False if cs and all(plain(x) for x in cs) else None
        rep.judge(ok, 'R3', n.at, what)


def plain(c):
    """a condition on sizes, numbers or pointers of the model alone"""
    if c[0] == '!':
        return plain(c[1])
    if c[0] in ('&&', '||'):
        return plain(c[1]) and plain(c[2])
    return c[0] == 'rel' and not S.any_t(c, lambda x: x[0] in ('var', 'phi', 'out'))


def toplevel_rets(n, out=None):
    if out is None:
        out = []
    if n.k == 'ret':
        out.append(n)
    elif n.k == 'seq':
        for x in n.a['s']:
            toplevel_rets(x, out)
    elif n.k == 'if':
        toplevel_rets(n.a['a'], out)
        toplevel_rets(n.a['b'], out)
    elif n.k == 'loop':
        toplevel_rets(n.a['body'], out)
    return out
