"""Data derived from the factors, the evidences and the connections is dropped or rebuilt
by the same operation that changes what it derives from (effect analysis with obligations
on every path of the public operations, calls inlined)."""
import itertools
import sym as S
import flow as F
import model as M
import seqs as Q
from nodes import NodeClient, strip, holds

ASSUME = ['a node kept under a variable is the node of that variable; two connected nodes know each other (see C04)']


class Derived(NodeClient):
    # ------------------------------------------------------------------- events
    def before(self, n, facts, may):
        self.gone = False
        if n.a['ek'] == 'mut' and n.a['op'] == 'erase' and n.a.get('key'):
            C, k = self.resolve(n.a['C'], facts), self.resolve(n.a['key'], facts)
            r = self.m.role(C)
            if r in ('disabled', 'active'):
                self.gone = self.absent(r, self.holder(C), self.canon(k), facts)
        return facts

    def event(self, n, facts, may):
        a, m = n.a, self.m
        if a['ek'] in ('mut', 'set'):
            a = {k: self.resolve(v, facts) if isinstance(v, tuple) else v for k, v in a.items()}
        add, ops = set(), set()
        if a['ek'] == 'mut':
            r = m.role(a['C'])
            h = self.holder(a['C']) if r in ('unaries', 'disabled', 'active', 'cnodes') else None
            if self.gone:
                return facts, may
            if r == 'nodes' and a['op'] in ('insert', '[]') and a.get('key'):
                add.add(('done', 'newnode', self.canon(('val', a['C'], a['key']))))
            if r == 'unaries':
                ops.add(('mu', h))
            elif r == 'disabled':
                k = self.canon(a['key']) if a.get('key') else None
                ops.add(('mu', h))
                if a['op'] in ('[]', 'insert') and k:
                    ops.add(('msg', h, k))
                    add.add(('done', 'ins', h, k))
                if a['op'] in ('erase', 'clear'):
                    may = frozenset(x for x in may if not (x[0] == 'msg' and x[1] == h and x[2] == k))
                    facts = frozenset(x for x in facts if x != ('done', 'ins', h, k))
                    add.add(('done', 'er', r, h, k))
            elif r == 'active':
                if a['op'] == 'erase' and a.get('key'):
                    add.add(('done', 'er', r, h, self.canon(a['key'])))
                ops.add(('conn', 'insert' if a['op'] in ('[]', 'insert') else 'erase'))
            elif r == 'cnodes':
                ops.add(('cn', h))
            elif r == 'clusters':
                if a['op'] == 'erase' and a.get('key'):
                    k = self.canon(a['key'])
                    add.add(('done', 'cerase', k))
                    may = frozenset(x for x in may if not (x[0] == 'cn' and x[1] == k))
                elif a['op'] in ('clear',):
                    add.add(('done', 'clusters'))
            elif r == 'evidences' and a['op'] in ('insert', '[]'):
                ops.add(('em', self.canon(a['key'])))
            elif r == 'evidences' and a['op'] == 'erase' and a.get('key'):
                ops.add(('um', self.canon(a['key'])))
        elif a['ek'] == 'set':
            lv = a['lv']
            r = m.role(lv)
            null = a['v'] in (S.NULL, S.NULLOPT)
            if r == 'merged':
                h = self.holder(lv)
                if null:
                    add.add(('done', 'mureset', h))
                    may = frozenset(x for x in may if not (x[0] == 'mu' and x[1] == h))
                else:
                    facts = frozenset(x for x in facts if x != ('done', 'mureset', h))
                    may = frozenset(x for x in may if not (x[0] == 'mu' and x[1] == h))
            elif r == 'dmessage':
                c = self.conn(lv)
                if c:
                    ops.add(('mu', c[0]))
                    if null:
                        ops.add(('msg', c[0], c[1]))
                    else:
                        add.add(('done', 'em', c[0], c[1]))
                        may = frozenset(x for x in may if not (x[0] == 'msg' and x[1:3] == c))
            elif r == 'connectivity':
                if null:
                    add.add(('done', 'cres', self.holder(lv)))
                    h = self.holder(lv)
                    may = frozenset(x for x in may if not (x[0] == 'cn' and x[1] == h))
            elif r == 'clusters':
                add.add(('done', 'clusters'))
            elif r in ('evidences[]',):
                t = strip(lv)
                if t[0] == 'mem' and t[2] == 'second':
                    t = strip(t[1])
                k = self.canon(t[2]) if t[0] in ('val', 'found', 'find', 'ent') else None
                ops.add(('em', k))
            elif lv[0] == 'mem' and lv[2] == 'weight':
                ops.add(('w',))
        elif a['ek'] == 'call' and a['n'] == 'setWeight' and not a.get('cst'):
            ops.add(('w',))
        facts = facts | add
        for o in ops:
            self.sites.add((o[0], n.at))
            if o[0] == 'mu' and ('done', 'mureset', o[1]) in facts:
                continue
            may = may | {o + (n.at,)}
        return facts, may

    # -------------------------------------------------------------------- loops
    def after_loop(self, n, st):
        facts, may = st
        if not may:
            return st
        ng = set()
        for x in facts:
            if x[0] != 'all':
                continue
            for o in may:
                if o[0] == 'um' and self.remade(x, o) or o[0] != 'um' and self.covers(x, o, facts):
                    ng.add(o)
        return (facts, may - ng) if ng else st

    def covers(self, x, o, facts):
        """the quantified fact x takes care of the obligation o"""
        q, body = x[1], x[2]
        if q[3] != 1 or q[1] != S.lit(0):
            return False
        d = q[4]
        alts = [body]
        if body[0] == 'all' and o[0] in ('em', 'w'):
            return False
        if body[0] == 'or':
            # skipped elements: those that are not evidences / hidden
            alts = [y for y in body[1] for y in y if y[0] == 'done']
            if any(all(y[0] != 'done' for y in alt) and not all(self.benign(y) for y in alt if not self.taut(y)) for alt in body[1]):
                return False
        for y in alts:
            if y[0] != 'done':
                continue
            if o[0] == 'mu' and y[1] == 'mureset':
                c = self.elem(y[2], q, d)
                if c is None or not self.whole(q, c):
                    continue
                if self.m.role(c) == 'nodes':
                    return True
                if self.m.role(c) == 'disabled' and holds(facts, ('done', 'ins', self.holder(c), o[1])):
                    return True
            if y[1] == 'em' and o[0] in ('em', 'msg'):
                c = self.elem(y[2], q, d)
                if c is None or not self.whole(q, c) or self.m.role(c) != 'disabled':
                    continue
                h = self.holder(c)
                if y[3] != h:
                    continue
                if o[0] == 'em' and (self.var(h) == o[1] or o[1] is None):
                    return True
                if o[0] == 'msg' and o[2] == h and holds(facts, ('done', 'ins', h, o[1])):
                    return True
        return False

    def remade(self, x, o):
        """every connection of the node that is no longer observed: its neighbour is hidden, or the message is made"""
        q, body = x[1], x[2]
        if q[3] != 1 or q[1] != S.lit(0):
            return False
        hit = False
        for alt in (body[1] if body[0] == 'or' else ((body,),)):
            ok = False
            for y in alt:
                if y[0] == 'done' and y[1] == 'em':
                    c = self.elem(y[3], q, q[4])
                    if c is not None and self.m.role(c) == 'disabled' and self.whole(q, c) and self.holder(c) == y[2] \
                            and o[1] in (self.canon(self.var(y[2])), self.canon(S.mem(y[2], self.m.f['nvar']))):
                        ok = hit = True
                if y[0] == '!' and y[1][0] == 'in' and self.m.role(y[1][1]) == 'evidences' and S.any_t(y[1][2], lambda z: z[0] == 'b'):
                    ok = True
            if not ok:
                return False
        return hit

    def taut(self, y):
        return False

    def benign(self, y):
        return S.any_t(y, lambda z: z[0] == 'mem' and self.m.role(z) in ('evidences', 'nodes', 'disabled'))

    # -------------------------------------------------------------------- exits
    def open(self, st):
        facts, may = st
        out = set()
        done = {x[1:] for x in facts if x[0] == 'done'}
        for o in may:
            if o[0] in ('mu', 'msg') and self.evidence(o[1], facts):
                continue
            if o[0] == 'msg' and not self.evidence(o[2], facts) and False:
                continue
            if o[0] == 'conn':
                kept = any(x[0] == 'cres' and ('cerase', x[1]) not in done for x in done)
                if ('clusters',) in done or kept or o[1] == 'erase' and any(x[0] == 'cerase' for x in done):
                    continue
            if o[0] == 'cn' and (('clusters',) in done or ('cerase', o[1]) in done or o[1][0] in ('new', 'var') or ('cres', o[1]) in done):
                continue
            if o[0] == 'w' and self.rebuilt(facts):
                continue
            out.add(o)
        return out

    def rebuilt(self, facts):
        """all the nodes: merged unaries dropped, messages of the evidences made again"""
        mu = em = False
        for x in facts:
            if x[0] != 'all' or x[1][1] != S.lit(0) or x[1][3] != 1:
                continue
            q, y = x[1], x[2]
            if y[0] == 'done' and y[1] == 'mureset' and self.m.role(self.elem(y[2], q, q[4]) or ('nil',)) == 'nodes':
                mu = True
            if y[0] == 'all':
                q2, z = y[1], y[2]
                zs = [z] if z[0] != 'or' else [w for alt in z[1] for w in alt]
                for w in zs:
                    if w[0] == 'done' and w[1] == 'em' and q2[1] == S.lit(0) and q2[3] == 1:
                        em = True
        return mu and em


TEXT = {'mu': 'merged unaries of the node are dropped', 'msg': 'message of the evidence is made', 'em': 'messages of the evidence are made again',
        'conn': 'connectivity of the cluster is dropped', 'cn': 'connectivity of the enlarged cluster is dropped',
        'w': 'what depends on the weights is dropped', 'um': 'messages of the neighbours that are still observed are made'}


def run(p, rep):
    m = M.Model(p)
    rep.rule('R1', 'on every completing path: a change of the unary factors / observed neighbours of a hidden node drops its merged unaries; '
             'a new or changed evidence makes the messages toward its hidden neighbours again; a change of connections or clusters drops '
             'the connectivity; a change of weights drops all of what depends on images')
    tot = derived(p, rep, m, 'R1', TEXT)
    for k in TEXT:
        if k not in tot:
            rep.missing('changes: ' + TEXT[k])
    rep.rule('R2', 'a propagation first drops all the messages between hidden nodes, and makes the merged unaries of every node that has none')
    for f in p.fns('EFG::strct::BeliefAware::propagateBelief'):
        if f.get('body'):
            fresh(p, rep, m, f)


def derived(p, rep, m, rule, keep):
    tot = set()
    ents = [f for f in m.entries() if not f.get('cst') and not f.get('ctor')]
    names = {f['n'] for f in ents}
    # the insertion of a factor is complete in itself: analysed once
    inner = [f for f in p.fns('EFG::strct::FactorsAware::addDistribution') if f.get('body')]
    for f in ents + inner:
        t = S.Sym(p, keep=names | {x['n'] for x in inner}).build(f)
        c = Derived(m, t)
        fl = F.Flow(c, cap=1000)
        ex = fl.run(t)
        rep.fn(f)
        bad = set()
        for st in ex:
            bad |= {o for o in c.open(st) if o[0] in keep}
        for o in sorted(bad, key=repr):
            rep.bad(rule, o[-1], '%s: not on every path the %s after this change' % (f['q'], TEXT[o[0]]))
        for k, at in sorted(c.sites, key=repr):
            tot.add(k)
            if k in keep and not any(o[0] == k and o[-1] == at for o in bad):
                rep.ok(rule, at, '%s: %s' % (f['q'], TEXT[k]))
    return tot


def whole(m, ctx):
    """the loops around visit all of their sequences"""
    vs = []
    for c in Q.loops(ctx):
        C = c[1].a.get('C')
        if c[2] and any(cs and all(understood(m, x[1]) for x in cs) for cs in Q.exits(c[1].a['body'])):
            vs.append(False)            # what one element is like makes it leave out the next ones
        vs.append(True if C is not None and not c[2] else Q.covers(c, lambda h: h[0] == 'size'))
    return Q.worst(vs)


def understood(m, c):
    if c[0] == '!':
        return understood(m, c[1])
    if c[0] in ('&&', '||'):
        return understood(m, c[1]) and understood(m, c[2])
    return atom(m, c) is not None


def atom(m, t):
    """name of an elementary condition; None: not understood"""
    if t[0] == 'isset' and t[1][0] == 'mem':
        if t[1][2] == m.f['merged']:
            return 'U'
        if t[1][2] == m.f['connectivity']:
            return 'K'
        if t[1][2] == m.f['message']:
            return 'M'
    if t[0] == 'rel' and S.any_t(t, lambda x: x == S.mem(('this',), m.f['belief'])):
        return ('kind', t)
    if t[0] == 'isset' and t[1] == S.mem(('this',), m.f['belief']):
        return 'L'
    if t[0] == 'rel' and any(x[0] == 'size' for x in t[2:4]) and all(x[0] in ('size', 'lit') for x in t[2:4]):
        own = [x[1] for x in t[2:4] if x[0] == 'size']
        if all(x[0] == 'var' for x in own):
            return ('var', t)
        if all(x[0] == 'mem' and x[2] in (m.f['active'], m.f['disabled'], m.f['unaries'], m.f['cnodes']) for x in own):
            return ('size', t)
    return None


def value(m, c, pol, env):
    if c[0] == '!':
        return value(m, c[1], not pol, env)
    if c[0] in ('&&', '||'):
        a, b = value(m, c[1], True, env), value(m, c[2], True, env)
        if c[0] == '&&':
            r = False if a is False or b is False else None if a is None or b is None else True
        else:
            r = True if a or b else None if a is None or b is None else False
        return None if r is None else r == pol
    if c[0] == 'bool':
        return c[1] == pol
    k = atom(m, c)
    if isinstance(k, tuple) and k[0] == 'size':
        x, y = amount(m, c[2], env), amount(m, c[3], env)
        r = None if x is None or y is None else {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y}.get(c[1])
        return None if r is None else r == pol
    return None if k not in env else env[k] == pol


def amount(m, t, env):
    if t[0] == 'lit':
        return t[1] if S.is_num(t) else None
    return env.get(t[1][2]) if t[1][0] == 'mem' else None


def atoms(m, c):
    if c[0] == '!':
        return atoms(m, c[1])
    if c[0] in ('&&', '||'):
        return atoms(m, c[1]) + atoms(m, c[2])
    a = atom(m, c)
    return [] if a is None else [a]


def table(m, sites, fixed, low):
    """some site is reached whatever the elementary conditions are: True; False when one case reaches none; None: not understood"""
    ks, fs = [], []
    for cs in sites:
        for c in cs:
            for a in atoms(m, c[1]):
                if isinstance(a, tuple) and a[0] == 'size':
                    fs += [x[1][2] for x in a[1][2:4] if x[0] == 'size' and x[1][2] not in fs]
                elif a not in ks and a not in fixed:
                    ks.append(a)
    if len(ks) > 6 or len(fs) > 3:
        return None
    f = m.f
    res = True
    for sizes in itertools.product(range(6), repeat=len(fs)):
        sz = dict(zip(fs, sizes))
        if any(v < low.get(k, 0) for k, v in sz.items()):
            continue
        if f['active'] in sz and f['cnodes'] in sz and not (sz[f['active']] < sz[f['cnodes']] and (sz[f['active']] > 0) == (sz[f['cnodes']] > 1)):
            continue
        for bits in range(1 << len(ks)):
            env = dict(fixed)
            env.update(sz)
            env.update({k: bool(bits >> i & 1) for i, k in enumerate(ks)})
            r = [Q.worst([value(m, c[1], c[2], env) for c in cs]) for cs in sites]
            if True in r:
                continue
            if None in r:
                res = None
            else:
                return False
    return res


def fresh(p, rep, m, f):
    rep.fn(f)
    t = S.Sym(p, keep={'updateMergedUnaries', 'updateMessage', 'resetBelief', 'canUpdateMessage'}).build(f)
    evs = Q.walk(t)
    at = (f['file'], f['l'])
    first = len(evs)
    for i, (n, ctx) in enumerate(evs):
        if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] in ('updateMessage', 'canUpdateMessage', 'parallelFor'):
            first = i
            break
    start = [c for c in Q.conds(evs[first][1])] if first < len(evs) else []
    body = [(n, tuple(c for c in ctx if c not in start)) for n, ctx in evs[:first]]
    opq = any(n.k == 'ev' and n.a['ek'] == 'opq' for n, _ in body)
    mk = [(n, ctx) for n, ctx in body if n.k == 'ev' and (n.a['ek'] == 'call' and n.a['n'] == 'updateMergedUnaries' or n.a['ek'] == 'set' and m.role(n.a['lv']) == 'merged' and n.a['v'] not in (S.NULL, S.NULLOPT))]
    v = table(m, [Q.conds(ctx) for n, ctx in mk], {'U': False}, {m.f['cnodes']: 1}) if mk else False
    v = Q.worst([v] + [whole(m, ctx) for n, ctx in mk])
    rep.judge(None if v is False and opq else v, 'R2', mk[-1][0].at if mk else at, f['q'] + ': every node without merged unaries gets them before the messages are computed')
    null = [(n, ctx) for n, ctx in body if n.k == 'ev' and n.a['ek'] == 'set' and m.role(n.a['lv']) == 'amessage' and n.a['v'] in (S.NULL, S.NULLOPT)]
    v = table(m, [Q.conds(ctx) for n, ctx in null], {'M': True}, {m.f['cnodes']: 2, m.f['active']: 1}) if null else False
    v = Q.worst([v] + [whole(m, ctx) for n, ctx in null])
    rep.judge(None if v is False and opq else v, 'R2', null[-1][0].at if null else at, f['q'] + ': the messages of earlier propagations are all dropped before')
