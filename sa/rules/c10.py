"""The number of threads asked for is what runs the whole operation, and no more than it
(lexical scope of the activation of the pool along the call graph; summaries of the functions that resize it)."""
import sym as S
import seqs as Q
import prog as P
import cg as C

PA = 'EFG::strct::PoolAware'
AC = PA + '::ScopedPoolActivator'
PL = 'EFG::strct::Pool'


def run(p, rep):
    rep.rule('R1', 'in an operation that takes a number of threads, whatever uses the pool does so while the pool is held at that number')
    rep.rule('R2', 'holding the pool gives it the size asked (0 is refused before the pool is touched) and ends by giving it back size 1; it starts with size 1')
    rep.rule('R3', 'no use of the pool outlives the holding: no member keeps a pool, nothing holds it a second time meanwhile')
    if not p.record(AC) or not p.record(PA):
        return rep.missing('pool activation')
    cg = C.CG(p)
    get = [f['c'] for f in p.fns(PA + '::getPool')] + [f['c'] for f in p.fns(PL + '::parallelFor')]
    uses = cg.reach(get)
    acts = cg.reach([f['c'] for f in p.fns(AC + '::ScopedPoolActivator') if len(f['params']) == 2])
    sizes(p, rep)
    done = set()
    for f in list(p.funcs.values()):
        if f.get('acc') == 'public' and f.get('body') and f.get('cls', '').startswith('EFG::') and (f['c'] in uses) and not f.get('ctor') and derives(p, f['cls']):
            ts = [i for i, a in enumerate(f['params']) if a['t'] in ('unsigned long', 'const unsigned long')]
            if len(ts) == 1:
                rep.fn(f)
                W(p, rep, uses, acts, done).fun(f, ts[0], 0)
    holders(p, rep)


def derives(p, c, depth=0):
    if c == PA:
        return True
    r = p.record(c)
    return depth < 12 and bool(r) and any(derives(p, b if isinstance(b, str) else b.get('q') or b.get('t'), depth + 1) for b in r.get('b') or ())


class W:
    """walk of a body: which statements are inside the scope of an activation"""

    def __init__(self, p, rep, uses, acts, done):
        self.p, self.rep, self.uses, self.acts, self.done = p, rep, uses, acts, done

    def fun(self, f, idx, depth):
        k = (f['c'], idx)
        if k in self.done or depth > 8:
            return
        self.done.add(k)
        self.f, self.par = f, f['params'][idx]
        self.idx, self.depth = idx, depth
        self.lam = 0
        self.stmt(f['body'], [False])

    def ispar(self, n):
        hit = []
        P.walk(n, lambda x: hit.append(x) if x.get('k') == 'ref' and (x.get('d') == self.par.get('d') if self.par.get('d') is not None else x.get('n') == self.par['n']) else None)
        return bool(hit)

    def stmt(self, n, st):
        """st: [state]; True held with the number asked, None held somehow, False not held"""
        if isinstance(n, list):
            for x in n:
                self.stmt(x, st)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'block' or k in ('if', 'for', 'rfor', 'while', 'do', 'try', 'lambda'):
            st = list(st)
        if k == 'lambda':
            self.lam += 1
            for key in ('body', 'b', 's'):
                if key in n:
                    self.stmt(n[key], st)
            self.lam -= 1
            return
        if k == 'decl':
            for v in n['v']:
                t = v.get('t') or ''
                if AC in t:
                    if v.get('static'):
                        st[0] = None
                        continue
                    i = v.get('init') or v.get('i') or {}
                    if t.replace('const ', '') == AC and i.get('k') in ('ctor', 'initlist', 'init', 'paren', 'cast'):
                        args = self.ctor_args(i)
                        if args is None:
                            st[0] = None
                        else:
                            a = args[1]
                            num = a.get('k') in ('lit', 'num', 'int')
                            ok = True if plain(a) and self.ispar(a) else False if num or self.altered(a) else None
                            self.rep.judge(ok, 'R1', (self.f['file'], n.get('l') or self.f['l']), self.f['q'] + ': the pool is held at the number of threads asked')
                            if st[0]:
                                self.rep.judge(False, 'R3', (self.f['file'], n.get('l')), self.f['q'] + ': the pool is held once')
                            st[0] = True if ok is not None else None
                    else:
                        st[0] = None
                else:
                    self.expr(v.get('init') or v.get('i'), st)
            return
        if k in ('block', 'if', 'for', 'rfor', 'while', 'do', 'try', 'exprs', 'ret') or k is None:
            for key, v in n.items():
                if isinstance(v, (dict, list)):
                    self.stmt(v, st)
            return
        self.expr(n, st)

    def altered(self, a):
        """another number, made from the one asked"""
        while isinstance(a, dict) and a.get('k') in ('cast', 'paren', 'load') and isinstance(a.get('e'), dict):
            a = a['e']
        if not isinstance(a, dict) or not self.ispar(a):
            return False
        if a.get('k') == 'call' and (a.get('q') or '').split('<')[0] in ('std::min', 'std::max', 'std::clamp'):
            return True
        return a.get('k') == 'bin' and a.get('op') in ('+', '-', '*', '/', '%', '<<', '>>') and any(x.get('k') in ('lit', 'num', 'int') for x in (a.get('a'), a.get('b')) if isinstance(x, dict))

    def ctor_args(self, i):
        while isinstance(i, dict) and i.get('k') in ('cast', 'paren') and isinstance(i.get('e'), dict):
            i = i['e']
        a = i.get('a') or i.get('args') if isinstance(i, dict) else None
        return a if a and len(a) == 2 else None

    def expr(self, n, st):
        if isinstance(n, list):
            for x in n:
                self.expr(x, st)
            return
        if not isinstance(n, dict):
            return
        if n.get('k') == 'lambda' or n.get('k') == 'decl' or n.get('k') == 'block':
            return self.stmt(n, st)
        for key, v in n.items():
            if isinstance(v, (dict, list)):
                self.expr(v, st)
        c = n.get('c')
        if n.get('k') == 'call' and n.get('q', '').startswith('std::') and AC in (n.get('t') or '') + str((n.get('o') or {}).get('t')):
            st[0] = None
        if n.get('k') != 'call' or c not in self.uses and not any(o in self.uses for o in self.p.overriders.get(c, ())):
            return
        at = (self.f['file'], n.get('l') or self.f['l'])
        g = self.p.funcs.get(c)
        what = (n.get('q') or '').split('::')[-1]
        sub = [i for i, a in enumerate(n.get('a') or ()) if self.ispar(a) and g and i < len(g['params']) and 'unsigned long' in g['params'][i]['t']]
        if sub and c in self.acts:
            if st[0]:
                self.rep.judge(False, 'R3', at, '%s: the pool is held once, when calling %s' % (self.f['q'], what))
                return
            ok = plain(n['a'][sub[0]])
            self.rep.judge(True if ok else False if self.altered(n['a'][sub[0]]) else None, 'R1', at, '%s: %s is asked for the same number of threads' % (self.f['q'], what))
            W(self.p, self.rep, self.uses, self.acts, self.done).fun(g, sub[0], self.depth + 1) if g and g.get('body') else None
            return
        if c in self.acts and not sub:
            # holds the pool by itself, at another size
            opt = [i for i, a in enumerate(g['params']) if a['t'] in ('unsigned long', 'const unsigned long')] if g else []
            if opt and g.get('acc') == 'public':
                a = (n.get('a') or [])
                given = a[opt[-1]] if opt[-1] < len(a) else None
                lit = given is None or given.get('k') in ('lit', 'defarg', 'num', 'int') or given.get('k') == 'def'
                self.rep.judge(False if lit else None, 'R1', at, '%s: %s is asked for the same number of threads' % (self.f['q'], what))
            else:
                self.rep.und('R1', at, '%s: %s' % (self.f['q'], what))
            return
        v = st[0]
        if v is False and self.lam:
            v = None
        self.rep.judge(v, 'R1', at, '%s: %s runs while the pool is held' % (self.f['q'], what))


def plain(a):
    """the value of a variable, as it is"""
    while isinstance(a, dict) and a.get('k') in ('cast', 'paren', 'load') and isinstance(a.get('e'), dict):
        a = a['e']
    return isinstance(a, dict) and a.get('k') == 'ref'


def last_pool(t, pool):
    """values given to the pool, with the conditions"""
    return [(n, c) for n, c in Q.walk(t) if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'mem' and n.a['lv'][2] == pool and not n.a.get('init')]


def sizes(p, rep):
    r = p.record(PA)
    pools = [x['n'] for x in r['f'] if PL in x['t']]
    if not pools:
        return rep.und('R2', (r['file'], r['l']), 'the pool of the model')
    pool = pools[0]
    issize = lambda t: t[0] == 'mem' and t[1][0] in ('mem', 'deref') and S.any_t(t, lambda x: x[0] == 'mem' and x[2] == pool)
    a = p.record(AC)
    if not [f for f in p.fns(AC + '::~ScopedPoolActivator') if f.get('body') is not None and not f.get('implicit')]:
        simple = all(x['t'].endswith(('&', '*')) or x['t'] in ('bool', 'unsigned long', 'const unsigned long') for x in a['f'])
        rep.judge(False if simple and not a.get('b') else None, 'R2', (a['file'], a['l']), 'the pool goes back to size 1')
    for q, what in ((AC + '::ScopedPoolActivator', 'hold'), (AC + '::~ScopedPoolActivator', 'back'), (PA + '::PoolAware', 'start')):
        for f in p.fns(q):
            if f.get('body') is None or f.get('implicit') or what == 'hold' and len(f['params']) != 2:
                continue
            rep.fn(f)
            t = S.Sym(p).build(f)
            at = (f['file'], f['l'])
            es = last_pool(t, pool)
            if not es:
                other = [n for n, c in Q.walk(t) if n.k == 'ev' and n.a['ek'] in ('call', 'opq')]
                rep.judge(None if other or what == 'start' else False, 'R2', at, f['q'] + ': the size of the pool')
                continue
            want = S.lit(1) if what != 'hold' else ('p', 1, f['params'][1]['n'])
            oks = []
            for n, c in es:
                v = size_of(n.a['v'], n)
                ok = True if v == want else False if v is not None and (S.is_num(v) or v[0] == 'p' or v[0] in ('+', '-', '*', '/') and S.any_t(v, lambda x: x == want)) else None
                cs = Q.conds(c)
                for x in cs:
                    tt, pol = x[1], x[2]
                    while tt[0] == '!':
                        tt, pol = tt[1], not pol
                    same = tt[0] == 'rel' and tt[1] == '==' and {True} == {issize(y) or y == want for y in (tt[2], tt[3])} and not pol
                    same = same or tt[0] == 'rel' and tt[1] == '!=' and {True} == {issize(y) or y == want for y in (tt[2], tt[3])} and pol
                    zero = refuse0(x, want)
                    if what == 'back' and ok and len(es) == 1 and not same:
                        if tt == ('isset', n.a['lv']):
                            ok = pol
                            continue
                        vs = [truth(tt, issize, k) for k in range(2, 33)]
                        if None not in vs:
                            ok = all(v == pol for v in vs)
                            continue
                    if what == 'start' and tt == ('isset', n.a['lv']) and not pol:
                        continue
                    if not same and not zero and ok is not False:
                        # any other condition on the sizes leaves some size not applied
                        cmp_ = tt[0] == 'rel' and S.any_t(tt, lambda y: y == want) and all(S.is_num(y) or y == want or issize(y) for y in (tt[2], tt[3]))
                        ok = False if ok and cmp_ and len(es) == 1 else None
                oks.append(ok)
                rep.judge(ok, 'R2', n.at, {'hold': 'holding the pool gives it the number of threads asked', 'back': 'the pool goes back to size 1', 'start': 'the pool has size 1 at first'}[what])
            if what == 'hold':
                ref = refused(t, want)
                clear = not any(n.k == 'throw' or n.k == 'ev' and n.a['ek'] in ('call', 'opq') for n, c in Q.walk(t))
                rep.judge(True if ref else False if clear else None, 'R2', at, f['q'] + ': 0 threads are refused before the pool is touched')


def truth(t, issize, n):
    """of a comparison of the size of the pool with a number, when that size is n"""
    if t[0] != 'rel':
        return None
    a, b = (n if issize(y) else y[1] if S.is_num(y) else None for y in t[2:4])
    if a is None or b is None:
        return None
    return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}.get(t[1])


def size_of(v, n):
    if isinstance(v, tuple) and v[0] == 'emplaced' and len(v[1]) == 1:
        return v[1][0]
    if isinstance(v, tuple) and v[0] in ('make', 'ctor') and len(v[2]) == 1:
        return v[2][0]
    return None


def refuse0(x, want):
    t, pol = x[1], x[2]
    while t[0] == '!':
        t, pol = t[1], not pol
    return t[0] == 'rel' and (t[1] == '==' and not pol or t[1] == '!=' and pol) and want in t[2:4] and S.lit(0) in t[2:4] \
        or t[0] == 'rel' and t[1] == '<' and pol and t[2] == S.lit(0) and t[3] == want


def refused(t, want):
    if t.k == 'seq':
        return any(refused(x, want) for x in t.a['s'])
    if t.k == 'scope':
        return refused(t.a['b'], want)
    if t.k == 'if':
        c = t.a['c']
        if c[0] == 'rel' and want in c[2:4] and S.lit(0) in c[2:4] and (Q.ends_flow(t.a['a'].a['s']) == 'throw' or Q.ends_flow(t.a['b'].a['s']) == 'throw'):
            return True
        return refused(t.a['a'], want) or refused(t.a['b'], want)
    return False


def holders(p, rep):
    """members that keep a pool, or a reference to it"""
    for q, r in p.records.items() if hasattr(p, 'records') else ():
        if not q.startswith('EFG::') or q in (PA, PL) or q.startswith(PL + '::'):
            continue
        for x in r['f']:
            t = x['t'].replace('const ', '')
            if t in (PL + ' &', PL + ' *') and derives(p, q):
                rep.bad('R3', (r['file'], x['l']), '%s::%s keeps the pool of a model beyond the operation' % (q, x['n']))
