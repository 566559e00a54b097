"""Dataflow over the trees of sym.py.  A state is a pair (facts, may): facts are atoms
that hold on every path the state stands for (conditions that were tested, things that
were done), may are the open items of the client.  States are kept apart (one per
combination of conditions) until there are too many of them, then merged."""
import sym as S

CAP = 40


def bound_depth(t):
    d = 0
    for x in S.all_t(t, lambda y: y[0] == 'all'):
        d = max(d, x[1][4] + 1)
    return d


def forall(lid, lo, hi, step, f):
    """generalisation of a fact about ('i',lid)"""
    d = bound_depth(f)
    return ('all', ('rng', lo, hi, step, d), S.sub(f, {('i', lid): ('b', d)}))


def atoms(c, pol=True):
    """atoms implied by c == pol, quantified ones included"""
    out = []
    for a in S.atoms(c, pol):
        out.append(norm(a))
    return [x for y in out for x in y]


def norm(a):
    neg = a[0] == '!'
    t = a[1] if neg else a
    if t[0] == 'anyi' and neg:
        q = t[1]
        return [forall(q[1], q[2], q[3], q[4], x) for x in atoms(t[2], False)]
    if t[0] == 'fold' and not neg and t[2] == '&&':
        q = t[1]
        return [forall(q[1], q[2], q[3], q[4], x) for x in atoms(t[4], True)] + atoms(t[3], True)
    if t[0] == 'fold' and neg and t[2] == '||':
        q = t[1]
        return [forall(q[1], q[2], q[3], q[4], x) for x in atoms(t[4], False)] + atoms(t[3], False)
    if t[0] == 'or' and not neg:
        return [t]
    return [a]


def contra(a):
    return a[1] if a[0] == '!' else ('!', a)


def infeasible(facts, a):
    if a == S.FALSE:
        return True
    if contra(a) in facts:
        return True
    if a[0] == 'rel' and a[1] == '==' and S.is_num(a[3]):
        for f in facts:
            if f[0] == 'rel' and f[1] == '==' and f[2] == a[2] and S.is_num(f[3]) and f[3] != a[3]:
                return True
    if a[0] == 'rel' and a[1] == '==' and a[3][0] == 'enum':
        for f in facts:
            if f[0] == 'rel' and f[1] == '==' and f[2] == a[2] and f[3][0] == 'enum' and f[3] != a[3]:
                return True
    if a[0] == 'isalt':
        for f in facts:
            if f[0] == 'isalt' and f[1] == a[1] and f[2] != a[2]:
                return True
    return False


def roots(t):
    """what a location is kept in: names of the fields and locals of the path"""
    out = []
    while isinstance(t, tuple):
        k = t[0]
        if k == 'mem':
            out.append(('f', t[2]))
            t = t[1]
        elif k in ('ix', 'val', 'found', 'key', 'ent', 'deref', 'addr', 'alt', 'back', 'max'):
            t = t[1]
        elif k == 'pick':
            t = t[3]
        elif k == 'find' or k == 'findi':
            t = t[1]
        elif k == 'new':
            out.append(('n', t[1]))
            t = t[2] if len(t) > 2 else None
            break
        elif k == 'var':
            out.append(('v', t[1]))
            break
        elif k == 'p':
            out.append(('p', t[1]))
            break
        elif k == 'cond':
            out += roots(t[2])
            t = t[3]
        else:
            break
    return out


def mentions(t, r):
    kind, n = r
    if kind == 'f':
        return S.any_t(t, lambda x: x[0] == 'mem' and x[2] == n)
    if kind == 'v':
        return S.any_t(t, lambda x: x[0] == 'var' and x[1] == n)
    if kind == 'p':
        return S.any_t(t, lambda x: x[0] == 'p' and x[1] == n)
    if kind == 'n':
        return S.any_t(t, lambda x: x[0] == 'new' and x[1] == n)
    return False


def fills(tree):
    """what is put in the local containers"""
    out = {}

    def go(n):
        k = n.k
        if k == 'ev':
            if n.a['ek'] == 'mut' and n.a['C'][0] == 'var' and n.a['op'] not in ('erase', 'clear', 'reserve', 'pop_back'):
                out.setdefault(n.a['C'], []).append(n.a.get('v') if n.a['op'] == 'push' else n.a.get('key') if n.a['op'] == 'insert' else None)
            elif n.a['ek'] == 'decl' and n.a.get('v') is not None and n.a.get('lv') is not None and n.a['v'] != ('list',):
                out.setdefault(n.a['lv'], []).append(None)
        elif k == 'seq':
            for x in n.a['s']:
                go(x)
        elif k == 'if':
            go(n.a['a'])
            go(n.a['b'])
        elif k == 'loop':
            if n.a.get('pre'):
                go(n.a['pre'])
            go(n.a['body'])
        elif k == 'scope':
            go(n.a['b'])
        elif k == 'try':
            go(n.a['b'])
            for h in n.a['h']:
                go(h)
    go(tree)
    return out


class Client:
    def feasible(self, n, st):
        """whether a throw can be met in that state"""
        return True

    def event(self, n, facts, may):
        return facts, may

    def before(self, n, facts, may):
        return facts

    def after_loop(self, n, st):
        return st

    def wants(self, f):
        return True

    def at_throw(self, n, st):
        pass

    def assume(self, c, pol, st):
        return st

    def groups(self, n, ss):
        """states for which a loop is analysed apart"""
        return [ss]

    def keepfact(self, f):
        return f[0] == 'done' or f[0] == 'all' and self.keepfact(f[2])


class Flow:
    def __init__(self, client=None, cap=CAP, path=False):
        self.path = path    # only the conditions tested along the path
        self.c = client or Client()
        self.cap = cap
        self.throws = []        # (node, state)
        self.trys = []
        self.rets = []
        self.seen = {}          # id(event node) -> [node, set of states before]
        self.nstates = 0
        self.merged = False     # states were joined: a bad one may be an artefact

    def run(self, tree, init=None):
        """states at the normal exits"""
        self.fills = fills(tree)
        S0 = {init or (frozenset(), frozenset())}
        o = self.node(tree, S0)
        return o['n'] | o['r']

    # ------------------------------------------------------------------ helpers
    def member(self, a):
        """not in(C, x) where x comes from a local container that holds only keys of C"""
        if a[0] != '!' or a[1][0] != 'in':
            return False
        C, x = a[1][1], a[1][2]
        if x[0] == 'ix' and x[1][0] == 'var':
            v = self.fills.get(x[1])
            return bool(v) and all(y is not None and y[0] == 'key' and y[1] == C for y in v)
        return False

    def limit(self, ss):
        if len(ss) <= self.cap:
            return ss
        by = {}
        self.merged = True
        for f, m in ss:
            by[m] = (by[m] & f) if m in by else f
        ss = {(f, m) for m, f in by.items()}
        if len(ss) > self.cap:
            fa = None
            ma = frozenset()
            for f, m in ss:
                fa = f if fa is None else fa & f
                ma |= m
            ss = {(fa, ma)}
        return ss

    def assume(self, ss, c, pol):
        ats = atoms(c, pol)
        out = set()
        for f, m in ss:
            g = f
            ok = True
            for a in ats:
                if infeasible(g, a) or self.member(a):
                    ok = False
                    break
                if a[0] == 'or':
                    alts = [x for x in a[1] if not any(infeasible(g, y) for y0 in x for y in norm(y0))]
                    if not alts:
                        ok = False
                        break
                    if len(alts) == 1:
                        g = g | frozenset(y for y0 in alts[0] for y in norm(y0))
                    else:
                        g = g | {a}
                else:
                    g = g | {a}
            if ok and len(g) > len(f):
                # alternatives left by an earlier condition
                for a in [x for x in f if x[0] == 'or']:
                    alts = [x for x in a[1] if not any(infeasible(g, y) for y0 in x for y in norm(y0))]
                    if len(alts) == len(a[1]):
                        continue
                    g = g - {a}
                    if not alts:
                        ok = False
                    elif len(alts) == 1:
                        g = g | frozenset(y for y0 in alts[0] for y in norm(y0))
                    else:
                        g = g | {('or', tuple(alts))}
            if ok:
                if len(g) > len(f):
                    g = frozenset(x for x in g if x in f or self.c.wants(x))
                st = self.c.assume(c, pol, (g, m))
                if st is not None:
                    out.add(st)
        return out

    def kill(self, facts, loc, content=False):
        rs = roots(loc)
        if not rs:
            return facts
        r = rs[0]
        return frozenset(f for f in facts if self.c.keepfact(f) or not mentions(f, r))

    # -------------------------------------------------------------------- nodes
    def node(self, n, ss):
        o = {'n': ss, 'r': set(), 'b': set(), 'c': set()}
        if not ss:
            return o
        k = n.k
        if k == 'seq':
            cur = ss
            for x in n.a['s']:
                r = self.node(x, cur)
                for z in ('r', 'b', 'c'):
                    o[z] |= r[z]
                cur = self.limit(r['n'])
                if not cur:
                    break
            o['n'] = cur
            return o
        if k == 'if':
            a = self.node(n.a['a'], self.assume(ss, n.a['c'], True))
            b = self.node(n.a['b'], self.assume(ss, n.a['c'], False))
            return {z: self.limit(a[z] | b[z]) for z in o}
        if k == 'scope':
            rv = n.a.get('r')
            rv = rv if isinstance(rv, tuple) and rv and rv[0] == 'ret' else None
            if rv:      # what an earlier call returned
                ss = {(frozenset(x for x in f if not S.has(x, rv)), m) for f, m in ss}
            self.rets.append(rv)
            r = self.node(n.a['b'], ss)
            self.rets.pop()
            o['n'] = self.limit(r['n'] | r['r'])
            o['b'], o['c'] = r['b'], r['c']
            return o
        if k == 'ret':
            self.at(n, ss)
            rv = self.rets[-1] if self.rets else None
            if rv and n.a.get('v') in (S.TRUE, S.FALSE):
                ss = self.assume(ss, rv, n.a['v'] == S.TRUE)
            elif rv and n.a.get('v') in (S.NULL, S.NULLOPT):
                ss = self.assume(ss, S.isset(rv), False)
            o['r'], o['n'] = ss, set()
            return o
        if k == 'throw':
            self.at(n, ss)
            self.throw(n, ss)
            o['n'] = set()
            return o
        if k == 'break':
            o['b'], o['n'] = ss, set()
            return o
        if k == 'continue':
            o['c'], o['n'] = ss, set()
            return o
        if k == 'try':
            rec = []
            self.trys.append(rec)
            b = self.node(n.a['b'], ss)
            self.trys.pop()
            hs = self.limit(set(ss) | set(rec))
            for z in o:
                o[z] = b[z]
            for h in n.a['h']:
                r = self.node(h, hs)
                for z in o:
                    o[z] = self.limit(o[z] | r[z])
            return o
        if k == 'loop':
            return self.loop(n, ss)
        if k == 'ev':
            self.at(n, ss)
            out = set()
            for f, m in ss:
                f = self.c.before(n, f, m)
                f2 = f if self.path else self.effect(n, f)
                f2, m2 = self.c.event(n, f2, m)
                if len(f2) > len(f):
                    f2 = frozenset(x for x in f2 if x in f or self.c.wants(x))
                out.add((f2, m2))
            if self.trys and n.a['ek'] == 'call':
                self.trys[-1].extend(out)
            o['n'] = out
            return o
        return o

    def at(self, n, ss):
        e = self.seen.get(id(n))
        if e is None:
            e = self.seen[id(n)] = [n, set()]
        e[1] |= ss

    def throw(self, n, ss):
        ss = [st for st in ss if self.c.feasible(n, st)]
        if self.trys:
            self.trys[-1].extend(ss)
            return
        for st in ss:
            self.throws.append((n, st))

    def effect(self, n, f):
        ek = n.a['ek']
        if ek == 'set':
            lv, v = n.a['lv'], n.a['v']
            f = self.kill(f, lv)
            if n.a['op'] == '=' and v is not None and not S.has(v, lv):
                if v in (S.NULL, S.NULLOPT):
                    f = f | {('!', ('isset', lv))}
                elif v == S.TRUE or v == S.FALSE:
                    f = f | {lv if v == S.TRUE else ('!', lv)}
                else:
                    a = S.rel('==', lv, v)
                    if a[0] == 'rel':
                        f = f | {a}
                    if v[0] in ('make', 'ctor', 'rec', 'emplaced', 'new'):
                        f = f | {('isset', lv)}
        elif ek == 'mut':
            f = self.kill(f, n.a['C'])
            if n.a['op'] == 'insert' and n.a['key'] is not None:
                f = f | {('in', n.a['C'], n.a['key'])}
            if n.a['op'] == 'erase' and n.a['key'] is not None and n.a['key'][0] not in ('itr', 'phi'):
                f = f | {('!', ('in', n.a['C'], n.a['key']))}
            if n.a['op'] == 'clear':
                f = f | {('rel', '==', S.size(n.a['C']), S.lit(0))}
        elif ek == 'call' and not n.a.get('cst') and n.a.get('o') is not None:
            o = n.a['o']
            if o != ('this',):
                f = self.kill(f, o)
        elif ek == 'astore':
            f = self.kill(f, n.a['lv'])
        elif ek == 'decl' and n.a.get('lv') is not None:
            f = self.kill(f, n.a['lv'])
            v = n.a.get('v')
            if v is not None and not n.a.get('scalar') and not n.a.get('copy') and not S.has(v, n.a['lv']):
                if v[0] == 'list' and len(v) == 1:
                    f = f | {('rel', '==', S.size(n.a['lv']), S.lit(0))}
                else:
                    a = S.rel('==', n.a['lv'], v)
                    if a[0] == 'rel':
                        f = f | {a}
        elif ek == 'need':
            f = f | set(atoms(n.a['v'], True))
        return f

    def muts(self, n, out):
        """locations changed in a tree"""
        if n.k == 'ev':
            if n.a['ek'] in ('set', 'astore', 'decl'):
                rs = roots(n.a['lv'])
                if rs:
                    out.add(rs[0])
            elif n.a['ek'] == 'mut':
                rs = roots(n.a['C'])
                if rs:
                    out.add(rs[0])
            elif n.a['ek'] == 'call' and not n.a.get('cst') and n.a.get('o') is not None:
                rs = roots(n.a['o'])
                if rs:
                    out.add(rs[0])
        elif n.k == 'seq':
            for x in n.a['s']:
                self.muts(x, out)
        elif n.k == 'if':
            self.muts(n.a['a'], out)
            self.muts(n.a['b'], out)
        elif n.k == 'loop':
            self.muts(n.a['body'], out)
            if n.a.get('pre'):
                self.muts(n.a['pre'], out)
        elif n.k == 'scope':
            self.muts(n.a['b'], out)
        elif n.k == 'try':
            self.muts(n.a['b'], out)
            for h in n.a['h']:
                self.muts(h, out)
        return out

    def loop(self, n, ss):
        gs = self.c.groups(n, ss)
        if len(gs) > 1:
            o = {'n': set(), 'r': set(), 'b': set(), 'c': set()}
            for g in gs:
                r = self.loop_(n, g)
                for z in o:
                    o[z] |= r[z]
            return {z: self.limit(o[z]) for z in o}
        return self.loop_(n, ss)

    def loop_(self, n, ss):
        lid = n.a['lid']
        I = ('i', lid)

        def local(t):
            return S.has(t, I) or S.any_t(t, lambda x: x[0] == 'phi' and x[1] == lid)

        def strip(st):
            f, m = st
            return (frozenset(x for x in f if not local(x)), m)
        counted = n.a.get('lo') is not None
        head = set(ss)
        o = {'n': set(), 'r': set(), 'b': set(), 'c': set()}
        ends = set()
        changed = self.muts(n.a['body'], set())
        # what the body may change does not hold at the head of the loop, unless shown
        for it in range(12):
            cur = head
            rets, brks = set(), set()
            exits = set()
            if not n.a.get('post'):
                if n.a.get('pre'):
                    r = self.node(n.a['pre'], cur)
                    cur = r['n']
                if counted:
                    b = self.assume(cur, ('rel', '<', I, n.a['hi']), True)
                elif n.a['c'] is not None:
                    exits = self.assume(cur, n.a['c'], False)
                    b = self.assume(cur, n.a['c'], True)
                else:
                    b = cur
                    if n.a['lk'] == 'maybe':
                        exits = cur
            else:
                b = cur
            r = self.node(n.a['body'], b)
            rets |= r['r']
            brks |= r['b']
            e = r['n'] | r['c']
            if n.a.get('post'):
                if n.a['c'] is not None:
                    exits = self.assume(e, n.a['c'], False)
                    e = self.assume(e, n.a['c'], True)
            ends = e
            nh = self.limit(head | {strip(x) for x in e})
            if nh == head:
                break
            head = nh
        o['r'] = rets
        if counted:
            gen = None
            loc = []
            for f, m in ends:
                g = frozenset(x for x in f if S.has(x, I) and not S.any_t(x, lambda y: y[0] == 'phi' and y[1] == lid)
                              and (self.c.keepfact(x) or not any(mentions(x, r) for r in changed)))
                gen = g if gen is None else gen & g
                loc.append(frozenset(x for x in g if x != ('rel', '<', I, n.a['hi'])))
            gen = set(gen or ())
            rest = {g - gen for g in loc}
            if 1 < len(rest) <= 4 and all(rest):
                gen.add(('or', tuple(sorted((tuple(sorted(g, key=repr)) for g in rest), key=repr))))
            allf = frozenset(forall(lid, n.a['lo'], n.a['hi'], n.a['step'], x) for x in (gen or ())
                             if x != ('rel', '<', I, n.a['hi']))
            exits = {(f | allf, m) for f, m in head}
        ex = {strip(x) for x in exits} | {strip(x) for x in brks}
        o['n'] = self.limit({self.c.after_loop(n, st) for st in ex})
        return o


def known(c, facts):
    """True / False / None: value of a condition under the facts"""
    c = S.boolc(c)
    if c[0] == '!':
        v = known(c[1], facts)
        return None if v is None else not v
    if c in facts:
        return True
    if contra(c) in facts:
        return False
    if c[0] == '&&':
        a, b = known(c[1], facts), known(c[2], facts)
        return False if a is False or b is False else True if a and b else None
    if c[0] == '||':
        a, b = known(c[1], facts), known(c[2], facts)
        return True if a or b else False if a is False and b is False else None
    if c == S.TRUE:
        return True
    if c == S.FALSE:
        return False
    if infeasible(facts, c):
        return False
    return None


def resolve(t, facts):
    """conditional terms decided by the facts"""
    if not S.any_t(t, lambda x: x[0] == 'cond'):
        return t

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x and x[0] == 'cond':
            v = known(x[1], facts)
            if v is not None:
                return go(x[2] if v else x[3])
        return tuple(go(y) for y in x)
    return go(t)


# ------------------------------------------------------------------- implication
def equalities(facts):
    m = {}
    for f in facts:
        if f[0] == 'rel' and f[1] == '==':
            a, b = f[2], f[3]
            if S.is_num(b) or len(repr(a)) >= len(repr(b)):
                a, b = a, b
            else:
                a, b = b, a
            if not S.has(b, a) and a not in m:
                m[a] = b
    return m


def canon(t, m, n=3):
    for _ in range(n):
        u = S.sub(t, m)
        if u == t:
            break
        t = u
    return t


def holds(facts, goal):
    if goal in facts:
        return True
    m = equalities(facts)
    g = canon(goal, m)
    for f in facts:
        c = canon(f, m)
        if c == g:
            return True
    return False
