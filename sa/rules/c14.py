"""A factor that is accepted takes part in the model once and is listed where it belongs
(must-analysis of the completing paths of the insertions, calls inlined)."""
import sym as S
import flow as F
import model as M
import seqs as Q
from nodes import NodeClient, strip

ASSUME = ['a node kept under a variable is the node of that variable']


class Ins(NodeClient):
    def wants(self, f):
        if f[0] in ('in', '!') and self.m.role((f[1] if f[0] == '!' else f)[1] if (f[1] if f[0] == '!' else f)[0] == 'in' else ('nil',)) == 'factors':
            return True
        return super().wants(f)

    def count(self, facts, k):
        for i in (1, 2):
            if ('done', i) + k not in facts:
                return ('done', i) + k
        return ('done', 2) + k

    def before(self, n, facts, may):
        self.fresh = None
        if n.a['ek'] == 'mut' and n.a.get('key') and self.m.role(n.a['C']) == 'factors':
            self.fresh = ('!', ('in', n.a['C'], n.a['key'])) in facts
        add = {('done', 'nodup', self.canon(x[1][2])) for x in facts if x[0] == '!' and x[1][0] == 'in' and self.m.role(x[1][1]) == 'factors'}
        return facts | add

    def event(self, n, facts, may):
        a, m = n.a, self.m
        if a['ek'] in ('mut', 'set', 'call'):
            a = {k: self.resolve(v, facts) if isinstance(v, tuple) and v and isinstance(v[0], str) else v for k, v in a.items()}
        add = set()
        if a['ek'] == 'call' and a['n'] in self.adders and a.get('args'):
            x = self.canon(self.resolve(a['args'][0], facts))
            self.sites.add(('add', n.at))
            add.add(('done', 'add', x))
            may = may | {('add', x, n.at)}
        elif a['ek'] == 'mut':
            r = m.role(a['C'])
            v = a.get('key') if a['op'] in ('insert', 'erase', '[]') else a.get('v')
            v = self.canon(v) if v else None
            if r in ('factors', 'constf', 'tunablef'):
                self.sites.add((r, n.at))
                if a['op'] in ('insert', 'push') and v:
                    add.add(('done', 'reg', r, v))
                    may = may | {('reg', r, v, n.at)}
                elif a['op'] in ('erase', 'clear'):
                    may = may | {('drop', r, v, n.at)}
                else:
                    add.add(('done', 'reg?', r))
            elif r == 'unaries':
                if a['op'] in ('push', 'insert') and v:
                    self.sites.add(('unary', n.at))
                    add.add(self.count(facts, ('un', self.holder(a['C']), v)))
                elif a['op'] in ('erase', 'clear'):
                    may = may | {('drop', r, v, n.at)}
            elif r == 'tuners' and a['op'] in ('push', 'insert'):
                self.sites.add(('tuner', n.at))
                add |= self.tuned(a.get('v') or a.get('key'), facts)
            elif r == 'tuners' and a['op'] in ('erase', 'clear'):
                may = may | {('drop', r, v, n.at)}
            elif a['C'][0] == 'mem' and a['op'] == 'push' and a.get('v') is not None and S.any_t(a['v'], lambda x: x[0] == 'make' and x[1].endswith('Tuner')):
                self.sites.add(('tuner', n.at))
                add |= self.tuned(a['v'], facts)
        elif a['ek'] == 'set':
            r = m.role(a['lv'])
            if r in ('afactor', 'dfactor'):
                c = self.conn(a['lv'])
                if c:
                    self.sites.add(('binary', n.at))
                    add.add(('done', 'fac', c[0], c[1], self.canon(a['v'])))
            elif a.get('v') is not None and isinstance(a['v'], tuple) and S.any_t(a['v'], lambda x: x[0] == 'make' and x[1].endswith('Tuner')) \
                    and a['lv'][0] != 'var':
                self.sites.add(('tuner', n.at))
                add |= self.tuned(a['v'], facts)
                lv = self.canon(a['lv'])
                # what was there has to be part of the new one
                mk = [x for x in S.all_t(a['v'], lambda x: x[0] == 'make' and x[1].endswith('CompositeTuner'))]
                if not any(lv == self.canon(y) for x in mk for y in x[2]):
                    may = may | {('over', n.at)}
        return facts | add, may

    def tuned(self, v, facts):
        out = set()
        if v is None:
            return out
        for x in S.all_t(v, lambda y: y[0] == 'make' and y[1].endswith('Tuner') and not y[1].endswith('CompositeTuner')):
            for y in x[2]:
                out.add(('done', 'tuner', self.canon(y)))
        return out


def removal(p, rep, m):
    names = {m.f[x]: x for x in ('unaries', 'factors', 'constf', 'tunablef', 'tuners') if x in m.f}
    for f in list(p.funcs.values()):
        if not f.get('body') or not f['q'].startswith('EFG::') or f.get('dtor') or not any(Q.touches(f, x) for x in names):
            continue
        rep.fn(f)
        t = S.Sym(p, keep={x['n'] for x in m.entries()} | {'locate', 'addDistribution'}).build(f)
        bad = [n for n, c in Q.walk(t) if n.k == 'ev' and n.a['ek'] == 'mut' and m.role(n.a['C']) in names.values()
               and n.a['op'] in ('erase', 'clear', 'pop_back', 'pop', 'pop_front', 'remove_if', 'resize', 'remove')]
        for n in bad:
            rep.bad('R3', n.at, '%s takes out what was inserted: %s' % (f['q'], m.role(n.a['C'])))
        if not bad:
            rep.ok('R3', (f['file'], f['l']), f['q'] + ': nothing is taken out')


def run(p, rep):
    m = M.Model(p)
    rep.rule('R1', 'the insertion of a factor: on every completing path it was tested not to be there already, enters the set of all factors, and '
             'exactly once the unary factors of its node or both sides of the connection of its two nodes')
    rep.rule('R2', 'operations that insert a factor put that same factor in exactly one of the constant / tunable sets; a tunable one gets a tuner made for it, '
             'kept in the list of tuners or in the composite it shares its weight with')
    rep.rule('R3', 'no operation takes a factor out of the model')
    removal(p, rep, m)
    ents = [f for f in m.entries() if not f.get('cst') and not f.get('ctor')]
    inner = [f for f in p.fns('EFG::strct::FactorsAware::addDistribution') if f.get('body')]
    names = {f['n'] for f in inner}
    keep = {f['n'] for f in ents} | names | {'locate', 'findTuner'}
    seen = set()
    for f in inner:
        t = S.Sym(p, keep=keep - names - {'locate'}).build(f)
        c = Ins(m, t)
        c.adders = ()
        ex = F.Flow(c, cap=1000).run(t)
        rep.fn(f)
        par = ('p', 0, f['params'][0]['n'])
        st_nodes = S.mem(S.mem(('this',), m.f['state']), m.f['nodes'])
        bad = set()
        at = (f['file'], f['l'])
        nu = nb = 0
        for facts, may in ex:
            D = {x[1:] for x in facts if x[0] == 'done'}
            if ('reg', 'factors', par) not in D and ('reg?', 'factors') not in D:
                bad.add('the factor enters the set of all the factors')
            if ('nodup', par) not in D:
                bad.add('a factor that is already there is refused')
            for o in may:
                if o[0] == 'drop':
                    bad.add('nothing else is dropped')
            un = {d for d in D if d[1:2] == ('un',) and d[0] in (1, 2) and d[3] == par}
            fac = {(d[1], d[2]) for d in D if d[0] == 'fac' and d[3] == par}
            if any(d[0] == 2 for d in un) or len({d[2] for d in un}) > 1:
                bad.add('a unary factor is put in its node once')
            two = len({d[2] for d in un}) + (1 if fac else 0)
            if two == 0:
                bad.add('the factor enters its node or its connection')
            if un and fac:
                bad.add('a factor enters either a node or a connection')
            for d in un:
                nu += 1
                g = grp(d[2], st_nodes, c)
                if g is not None and not S.has(g, par):
                    bad.add('the unary factor enters the node of its own variable')
            for h, k in fac:
                nb += 1
                if (k, h) not in fac:
                    bad.add('both sides of the connection hold the factor')
                a, b = grp(h, st_nodes, c), grp(k, st_nodes, c)
                if a is not None and b is not None:
                    if not (S.has(a, par) and S.has(b, par)) or a == b:
                        bad.add('the binary factor connects the nodes of its own variables')
        for b in sorted(bad):
            rep.bad('R1', at, '%s: not on every path: %s' % (f['q'], b))
        if not bad and ex:
            for s in sorted(c.sites, key=repr):
                rep.ok('R1', s[1], '%s: %s' % (f['q'], s[0]))
        if not (nu and nb):
            rep.missing('insertion of unary / binary factors in the graph')
    for f in inner:
        again(p, rep, m, f, S.Sym(p, keep=keep - names - {'locate'}).build(f))
    for f in ents:
        t = S.Sym(p, keep=keep).build(f)
        c = Ins(m, t)
        c.adders = names
        fl = F.Flow(c, cap=1000)
        ex = fl.run(t)
        c.sites = {s for s in c.sites if s[0] not in ('binary', 'unary')}
        if not c.sites:
            continue
        rep.fn(f)
        bad = set()
        for facts, may in ex:
            D = {x[1:] for x in facts if x[0] == 'done'}
            for o in may:
                if o[0] == 'add':
                    k = [r for r in ('constf', 'tunablef') if ('reg', r, o[1]) in D]
                    if ('reg?', 'constf') in D or ('reg?', 'tunablef') in D:
                        continue
                    if not k:
                        bad.add((o[-1], 'the inserted factor is listed among the constant or the tunable ones'))
                    elif len(k) > 1:
                        bad.add((o[-1], 'the inserted factor is listed once'))
                    elif k == ['tunablef'] and ('tuner', o[1]) not in D:
                        bad.add((o[-1], 'the inserted tunable factor has a tuner'))
                    elif k == ['constf'] and ('tuner', o[1]) in D:
                        bad.add((o[-1], 'a constant factor has no tuner'))
                    seen |= set(k)
                elif o[0] == 'reg' and o[1] in ('constf', 'tunablef') and ('add', o[2]) not in D:
                    bad.add((o[-1], 'what is listed was inserted in the graph'))
                elif o[0] == 'drop':
                    bad.add((o[-1], 'no factor is dropped'))
                elif o[0] == 'over':
                    bad.add((o[-1], 'the tuner that is replaced is kept in the composite'))
        for a, b in sorted(bad, key=repr):
            rep.bad('R2', a, '%s: not on every path %s' % (f['q'], b))
        for s in sorted(c.sites, key=repr):
            if not any(a == s[1] for a, _ in bad):
                rep.ok('R2', s[1], '%s: %s' % (f['q'], s[0]))
    for r in ('constf', 'tunablef'):
        if r not in seen:
            rep.missing('insertion in ' + r)
    # the composite keeps what it is given
    for f in p.fns('EFG::train::CompositeTuner::CompositeTuner') + p.fns('EFG::train::CompositeTuner::addElement'):
        if not f.get('body') or f.get('implicit'):
            continue
        t = S.Sym(p).build(f)
        c = Kept()
        ex = F.Flow(c).run(t)
        rep.fn(f)
        for i, a in enumerate(f['params']):
            if 'unique_ptr' not in (a.get('t') or ''):
                continue
            ok = bool(ex) and all(('done', 'kept', ('p', i, a['n'])) in facts for facts, _ in ex)
            if not ok and any(e.k == 'ev' and any(isinstance(v, tuple) and S.has(v, ('p', i, a['n'])) for v in e.a.values()) and
                              e.a['ek'] not in ('mut', 'need') for e in M.events(t)):
                ok = None
            rep.judge(ok, 'R2', (f['file'], f['l']), '%s: every path keeps %s' % (f['q'], a['n']))


def again(p, rep, m, f, t):
    """two variables that are already connected, on either side, are refused: an insertion would replace the factor between them"""
    said, odd = set(), False
    for n, ctx in Q.walk(t):
        if n.k != 'throw':
            continue
        for c in Q.conds(ctx):
            if S.any_t(c[1], lambda x: x[0] in ('phi', 'out')):
                odd = True
            for r in ('active', 'disabled'):
                if S.any_t(c[1], lambda x: x[0] == 'mem' and x[2] == m.f[r]):
                    said.add(r)
    at = (f['file'], f['l'])
    for r, what in (('active', 'inferred'), ('disabled', 'observed')):
        rep.judge(True if r in said else None if odd and not said else False, 'R1', at, '%s: a second factor between two variables connected on the %s side is refused' % (f['q'], what))


class Kept(F.Client):
    def wants(self, f):
        return f[0] == 'done'

    def event(self, n, facts, may):
        if n.a['ek'] == 'mut' and n.a['op'] in ('push', 'insert') and n.a.get('v') is not None:
            return facts | {('done', 'kept', y) for y in S.all_t(n.a['v'], lambda x: x[0] == 'p')}, may
        if n.a['ek'] in ('set',) and n.a.get('v') is not None and n.a['lv'][0] == 'mem':
            return facts | {('done', 'kept', y) for y in S.all_t(n.a['v'], lambda x: x[0] == 'p')}, may
        return facts, may


def grp(h, nodes, c):
    """the variable whose node h is"""
    h = strip(h)
    if h[0] == 'val' and h[1] == nodes:
        return h[2]
    return None
