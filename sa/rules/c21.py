"""Samples: number, evolution in between, place of each variable, observed values, what each draw is based on."""
import sym as S
import seqs as Q
import model as M

GS = 'EFG::strct::GibbsSampler'
US = 'EFG::strct::UniformSampler'
KEEP = {'updateMergedUnaries', 'getProbabilities', 'sampleFromDiscrete', 'parallelFor', 'resetSeed'}
ASSUME = ['the random engines and the uniform distribution of the standard library are right',
          'the product of the factors and its normalization are those of C07 and C17']


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ('deref', 'addr'):
        t = t[1]
    return t


def ev(n, *kinds):
    return n.k == 'ev' and n.a['ek'] in kinds


def inside(ctx, L):
    """the part of the context inside the loop"""
    for i, c in enumerate(ctx):
        if c is L or c[0] == 'loop' and c[1] is L[1]:
            return ctx[i + 1:]
    return None


def plain(ctx):
    return not any(c[0] in ('if', 'try') for c in ctx)


def size_of(C):
    return lambda h: h == ('size', C)


def same_value(v, e):
    """is v always what e is: computed for some values of e when it depends on nothing else"""
    def go(t, x):
        if t == e:
            return x
        if S.is_num(t):
            return t[1]
        if t[0] in ('+', '-', '*', '/', '%', 'min', 'max') and len(t) == 3:
            a, b = go(t[1], x), go(t[2], x)
            if a is None or b is None or t[0] in '/%' and not b:
                return None
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a // b, '%': lambda: a % b, 'min': lambda: min(a, b), 'max': lambda: max(a, b)}[t[0]]()
        if t[0] == 'cond':
            c = go(t[1], x)
            return None if c is None else go(t[2] if c else t[3], x)
        if t[0] == '!':
            c = go(t[1], x)
            return None if c is None else not c
        if t[0] == 'rel' and t[1] in ('<', '<=', '=='):
            a, b = go(t[2], x), go(t[3], x)
            return None if a is None or b is None else a < b if t[1] == '<' else a <= b if t[1] == '<=' else a == b
        return None
    if v == e:
        return True
    vs = [(x, go(v, x)) for x in (0, 1, 2, 3, 7, 100)]
    if any(y is None for _, y in vs):
        return None
    return all(x == y for x, y in vs)


def position_cond(c):
    """a condition on positions, or on which element it is"""
    if Q.arith_cond(c):
        return True
    if c[0] == '!':
        return position_cond(c[1])
    if c[0] == 'rel':
        a, b = strip(c[2]), strip(c[3])
        return a[0] in ('ix', 'front', 'back') and b[0] in ('ix', 'front', 'back') and a[1] == b[1]
    return False


def cov(l, issize):
    """covers, with the loops that are left at some number of elements"""
    if l[2]:
        ex = Q.exits(l[1].a['body'])
        if any(all(c[0] == 'if' and position_cond(c[1]) for c in x) for x in ex):
            return False
        return None
    return Q.covers(l, issize)


def resolve(t, fact, val):
    """the term when the fact is known"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'cond':
        c, pol = t[1], True
        while c[0] == '!':
            c, pol = c[1], not pol
        if c == fact:
            return resolve(t[2] if pol == val else t[3], fact, val)
    return tuple(resolve(x, fact, val) for x in t)


def conj(c):
    return conj(c[1]) + conj(c[2]) if c[0] == '&&' else [c]


def disj(c):
    return disj(c[1]) + disj(c[2]) if c[0] == '||' else [c]


class Gibbs:
    def __init__(self, p, rep, f):
        self.p, self.rep, self.f = p, rep, f
        self.m = M.Model(p)
        self.q = f['q']
        self.at = (f['file'], f['l'])
        self.tree = S.Sym(p, keep=KEEP).build(f)
        self.evs = Q.walk(self.tree)
        self.ctx = ('p', 0, f['params'][0]['n'])
        st = S.mem(('this',), self.m.f['state'])
        self.V, self.E, self.K = (S.mem(st, self.m.f[x]) for x in ('variables', 'evidences', 'clusters'))
        self.buffer = None
        self.opaque = any(ev(n, 'opq') for n, _ in self.evs)

    def opt(self, name):
        return S.mem(self.ctx, name)

    # ---------------------------------------------------------------- samples
    def result(self):
        rep, at = self.rep, self.at
        rets = [(n, c) for n, c in self.evs if n.k == 'ret' and not any(x[0] == 'task' for x in c)]
        rets = [(n, c) for n, c in rets if n.a.get('v') and n.a['v'][0] == 'var' and not c]
        # the return of the operation itself is the last one
        R = rets[-1][0].a['v'] if rets else None
        ins = [(n, c) for n, c in self.evs if R and ev(n, 'mut') and n.a['C'] == R and n.a['op'] in ('push', 'insert', 'insert_all', 'resize')]
        if len(ins) != 1 or ins[0][0].a['op'] != 'push':
            rep.und('R1', at, self.q + ': one place where samples are added')
            return
        n, c = ins[0]
        v = strip(n.a['v']) if n.a.get('v') else None
        self.buffer = v if v and v[0] == 'var' else None
        for x, _ in self.evs:
            if self.buffer and ev(x, 'decl') and x.a['lv'] == self.buffer and x.a.get('v') and x.a['v'][0] == 'var':
                # a copy of the values
                self.buffer = x.a['v']
                for y, _ in self.evs:
                    if ev(y, 'set') and y.a['lv'][0] == 'ix' and y.a['lv'][1] == v:
                        rep.judge(False if Q.arith(y.a['lv'][2]) else None, 'R1', y.at, self.q + ': a sample is what the variables are then')
                break
        if v and S.any_t(v, lambda z: z[0] in ('back', 'ix', 'front') and z[1] == R):
            rep.bad('R1', n.at, self.q + ': a sample is what the variables are then, not an earlier sample')
        ls = Q.loops(c)
        if len(ls) != 1:
            rep.und('R1', n.at, self.q + ': the samples are added in one loop')
            return
        L = ls[0]
        N = self.opt('samples_number')
        sz = ('size', R)
        a, w = L[1].a, None
        if not plain(c):
            w = False if any(x[0] == 'if' and (a['lk'] == 'count' or S.any_t(x[1], lambda z: z[0] in ('back', 'ix') and z[1] == R or z == self.buffer)) and x in inside(c, L) for x in c) else None
        elif L[2]:
            ex = Q.exits(L[1].a['body'])
            w = False if any(x and all(z[0] == 'if' and Q.arith_cond(z[1]) and S.has(z[1], sz) and not S.has(z[1], N) for z in x) for x in ex) else None
        elif a['lk'] == 'count' or a['lo'] is not None:
            w = cov(L, lambda h: h == N)
        elif a['lk'] == 'while' and a['c'] is not None:
            g = a['c']
            if g in (('!', ('rel', '==', N, sz)), ('!', ('rel', '==', sz, N)), ('rel', '<', sz, N)):
                w = True
            elif g in (('!', ('rel', '<', N, sz)), ('rel', '<=', sz, N)):
                w = False
            elif g[0] in ('rel', '!') and S.has(g, sz) and S.has(g, N):
                ns = [x for x in S.all_t(g, S.is_num)]
                w = False if ns and all(x[1] in (1, 2) for x in ns) else None
        lim = a['c'] if a['lk'] == 'while' else a['hi']
        if w is None and lim is not None and S.any_t(lim, lambda z: z[0] == 'min' and N in z[1:] and any(S.is_num(y) for y in z[1:])):
            w = False
        rep.judge(w, 'R1', n.at, self.q + ': as many samples as asked')
        runs = [(x, y) for x, y in self.evs if ev(x, 'call') and x.a['n'] == 'parallelFor']
        inn = [(x, y) for x, y in runs if inside(y, L) is not None]
        pre = [(x, y) for x, y in runs if inside(y, L) is None]
        if not inn:
            rep.judge(None if self.opaque or not runs else False, 'R1', n.at, self.q + ': the values evolve between a sample and the next')
            return
        for x, y in inn:
            k = inside(y, L)
            self.batches(x, k, True, (n, c), L)
        ip = [Q.pos(self.evs, x) for x, _ in pre if Q.pos(self.evs, x) < Q.pos(self.evs, n)]
        if not ip:
            rep.judge(None if self.opaque else False, 'R2', n.at, self.q + ': the values evolve for the asked transient before the first sample')
        its = {self.iterations(inside(y, L)) for x, y in inn}
        for x, y in pre:
            self.batches(x, y, False, (n, c), L)
            t = self.iterations(y)
            if t is None:
                o = [z[1] for z in y if z[0] == 'if']
                rep.judge(False if o and all(S.has(z, self.opt('seed')) or S.has(z, self.opt('samples_number')) and S.any_t(z, lambda u: S.is_num(u) and u[1] > 1) for z in o) else None,
                          'R2', x.at, self.q + ': iterations of the transient')
                continue
            T, D = self.opt('transient'), self.opt('delta_iterations')
            d = next(iter(its)) if len(its) == 1 else None
            ws = []
            for pol in (True, False):
                r, e = (resolve(z, ('isset', D), pol) if z is not None else None for z in (t, d))
                on, off = strip(resolve(r, ('isset', T), True)), resolve(r, ('isset', T), False)
                ws.append(True if on == T else False if S.is_num(on) or not S.has(on, T) or on[0] in ('+', '-', '*', '/') and any(S.is_num(z) or strip(z) == T for z in on[1:]) else None)
                if e is None:
                    ws.append(None)
                elif off in (('*', S.lit(10), e), ('*', e, S.lit(10))):
                    ws.append(True)
                else:
                    ws.append(False if off == e or S.is_num(off) or strip(off) == T or off[0] == '*' and e in off[1:] and all(z == e or S.is_num(z) for z in off[1:]) else None)
            w = Q.worst(ws)
            rep.judge(w, 'R2', x.at, self.q + ': the transient lasts as asked, or ten times what separates two samples')

    def iterations(self, ctx):
        """how many times everything runs"""
        ls = Q.loops(ctx)
        if len(ls) == 1:
            return S.lit(1)
        if len(ls) != 2 or not plain(ctx) or ls[0][2]:
            return None
        a = ls[0][1].a
        if a['lo'] is None or not S.is_num(a['lo']) or a['hi'] is None or a['step'] not in (1, S.lit(1)):
            return None
        if a['lo'][1] == 0:
            return a['hi']
        return ('-', a['hi'], a['lo']) if a['lo'][1] > 0 else None

    def positive(self, t):
        if S.is_num(t):
            return t[1] >= 1
        if t[0] == 'max':
            vs = [self.positive(x) for x in t[1:] if isinstance(x, tuple)]
            return True if True in vs else False if vs and all(v is False for v in vs) else None
        if t[0] == 'min':
            return Q.worst([self.positive(x) for x in t[1:] if isinstance(x, tuple)])
        if t[0] == 'cond':
            if t[1] in (('rel', '==', t[3], S.lit(0)), ('rel', '<', t[3], S.lit(1))):
                return self.positive(t[2])
            if t[1] in (('!', ('rel', '==', t[2], S.lit(0))), ('rel', '<', S.lit(0), t[2])):
                return self.positive(t[3])
            return Q.worst([self.positive(t[2]), self.positive(t[3])])
        if strip(t) == self.opt('delta_iterations'):
            return False
        if t[0] == '-' and S.is_num(t[2]) and t[2][1] >= 1 and self.positive(t[1]) is not None:
            return False
        if t[0] == '+' and any(S.is_num(x) and x[1] >= 1 for x in t[1:]):
            return True
        return None

    def batches(self, x, ctx, between, push, L):
        rep = self.rep
        ls = Q.loops(ctx)
        arg = strip(x.a['args'][0]) if x.a.get('args') else None
        if not ls or arg is None or arg[0] != 'ix':
            rep.und('R4', x.at, self.q + ': batches that are run')
            return
        lp = Q.loop_of(ctx, arg[2])
        if lp is None:
            rep.judge(False if S.is_num(arg[2]) else None, 'R4', x.at, self.q + ': every batch is run')
        else:
            w = cov(lp, lambda h: h[0] == 'size' and h[1] == arg[1])
            k = inside(ctx, lp)
            if any(c[0] == 'if' for c in k):
                small = [Q.holds_small(c[1], c[2], arg) for c in k if c[0] == 'if']
                w = w if all(v is True for v in small) else False if False in small or all(Q.arith_cond(c[1]) for c in k if c[0] == 'if') else None
            rep.judge(w, 'R4', x.at, self.q + ': every batch is run at each iteration')
        self.tasks_var = arg[1]
        if between:
            t = self.iterations(ctx)
            if t is None and any(c[0] == 'if' and S.any_t(c[1], lambda z: z[0] == '%') and Q.arith_cond(c[1]) for c in ctx):
                rep.bad('R1', x.at, self.q + ': the values evolve between any sample and the next')
            else:
                rep.judge(None if t is None else self.positive(t), 'R1', x.at, self.q + ': the values evolve at least once between a sample and the next')
            D = self.opt('delta_iterations')
            if t is not None:
                on = resolve(t, ('isset', D), True)
                bare = S.sub(on, {('isset', D): S.lit(1)})
                rep.judge(True if S.has(bare, D) else False, 'R1', x.at, self.q + ': they evolve as much as asked')

    # ----------------------------------------------------------------- places
    def places(self):
        rep, B = self.rep, self.buffer
        if B is None:
            bs = {n.a['v'][1][1] for n, c in self.evs if ev(n, 'mut') and n.a['op'] in ('insert', '[]') and n.a['C'][0] == 'var' and n.a.get('v')
                  and n.a['v'][0] == 'addr' and n.a['v'][1][0] == 'ix' and n.a['v'][1][1][0] == 'var'}
            B = self.buffer = next(iter(bs)) if len(bs) == 1 else None
        if B is None:
            rep.und('R3', self.at, self.q + ': where the values are')
            return None
        maps = {}
        for n, c in self.evs:
            if ev(n, 'mut') and n.a['op'] in ('insert', '[]') and n.a['C'][0] == 'var' and n.a.get('v'):
                v = n.a['v']
                if v[0] == 'addr' and v[1][0] == 'ix' and v[1][1] == B:
                    maps.setdefault(n.a['C'], []).append((n, c, v[1][2]))
        if len(maps) != 1:
            rep.und('R3', self.at, self.q + ': place of the value of each variable')
            return None
        E = self.E
        mp, ins = next(iter(maps.items()))
        for n, c, i in ins:
            k = n.a['key']
            lp = Q.loop_of(c, i)
            if lp is None:
                i2 = next((Q.counter(self.evs, i, x) for x in Q.loops(c) if Q.counter(self.evs, i, x) != i), i)
                lp, i = Q.loop_of(c, i2), i2
            if k is not None and k[0] == 'ix' and k[1][0] == 'var':
                dec = [x for x, _ in self.evs if ev(x, 'decl') and x.a['lv'] == k[1]]
                mv = [x for x, _ in self.evs if ev(x, 'call') and x.a['n'] in ('reverse', 'sort', 'stable_sort', 'rotate', 'shuffle')
                      and any(isinstance(z, tuple) and S.has(z, k[1]) for z in x.a.get('args') or ())]
                if len(dec) == 1 and dec[0].a.get('v') == self.V and mv:
                    rep.bad('R3', mv[0].at, self.q + ': the k-th value of a sample is the one of the k-th variable')
                    continue
            if k is None or k[0] != 'ix' or k[1] != self.V:
                rep.und('R3', n.at, self.q + ': variable of each place')
                continue
            rep.judge(Q.same_index(k[2], i), 'R3', n.at, self.q + ': the k-th value of a sample is the one of the k-th variable')
            w = cov(lp, size_of(self.V)) if lp else None
            if lp and not plain(inside(c, lp)):
                w = None
            elif lp and w is None and lp[1].a['hi'] is not None and S.has(lp[1].a['hi'], ('size', E)):
                w = False
            rep.judge(w, 'R3', n.at, self.q + ': every variable has a place')
        last = max(Q.pos(self.evs, n) for n, _, _ in ins)
        for j, (n, c) in enumerate(self.evs):
            if j > last and ev(n, 'mut') and n.a['C'] == B and n.a['op'] in ('resize', 'push', 'clear', 'erase', 'insert', 'assign') and not (n.a['op'] == 'resize' and n.a['key'] in (('size', B), ('size', self.V))):
                rep.bad('R3', n.at, self.q + ': the places are still there when the values are written')
        self.observed(mp, last)
        return mp

    def observed(self, mp, last):
        rep, B, E = self.rep, self.buffer, self.E
        sets = []
        for j, (n, c) in enumerate(self.evs):
            if not ev(n, 'set') or any(x[0] == 'task' for x in c):
                continue
            lv = strip(n.a['lv'])
            if lv[0] in ('val', 'found') and lv[1] == mp or lv[0] == 'ix' and lv[1] == B:
                sets.append((j, n, c, lv))
        mine = [x for x in sets if S.has(x[3], E) or S.has(x[1].a['v'], E)]
        if not mine:
            seen = any(any(isinstance(v, tuple) and S.has(v, E) for v in n.a.values()) for n, _ in self.evs)
            rep.judge(None if seen or self.opaque else False, 'R3', self.at, self.q + ': the observed values are in the samples')
            return
        for j, n, c, lv in mine:
            if lv[0] == 'ix' or lv[2][0] != 'key' or lv[2][1] != E:
                rep.und('R3', n.at, self.q + ': place of an observed value')
                continue
            k, v = lv[2], n.a['v']
            w = same_value(v, ('val', E, k))
            w = w if w is not None else False if S.is_num(v) or v[0] == 'val' and v[1] == E and v[2] != k or \
                v[0] in ('+', '-') and S.has(v, ('val', E, k)) and any(S.is_num(z) for z in v[1:]) else None
            rep.judge(w, 'R3', n.at, self.q + ': an observed variable has its own observed value in the samples')
            lp = Q.loop_of(c, k[2])
            w = cov(lp, size_of(E)) if lp else None
            if lp and not plain(inside(c, lp)):
                w = None
                cs = [x for x in inside(c, lp) if x[0] == 'if']
                if len(cs) == 1:
                    e = ('val', E, k)
                    g = cs[0][1] if cs[0][2] else ('!', cs[0][1])
                    if g in (('!', ('rel', '==', e, S.lit(0))), ('rel', '<', S.lit(0), e)):
                        w = True
                    elif S.has(g, e) and g[0] == 'rel' and g[1] == '<' and any(S.is_num(x) for x in g[2:]):
                        w = False
            rep.judge(w, 'R3', n.at, self.q + ': every observed value is in the samples')
        lastE = max(x[0] for x in mine)
        for j, n, c, lv in sets:
            if j > lastE and S.is_num(n.a['v']) and (j, n, c, lv) not in mine:
                lp = Q.loops(c)
                rep.judge(False if lp and (cov(lp[-1], size_of(self.V)) or cov(lp[-1], size_of(B))) and plain(c) else None, 'R3', n.at, self.q + ': the observed values are not overwritten')

    # ------------------------------------------------------------------ nodes
    def place_of(self, v, mp):
        """variable whose place it is"""
        v = strip(v)
        if v[0] in ('val', 'found') and v[1] == mp:
            return v[2]
        return None

    def nodes(self, mp):
        rep, f = self.rep, self.m.f
        hold = [(n, c) for n, c in self.evs if ev(n, 'set') and n.a['lv'][0] == 'mem' and n.a['lv'][2] == 'value_in_combination' and n.a['lv'][1][0] == 'new']
        if len(hold) != 1:
            rep.und('R5', self.at, self.q + ': one place where the sampled variables are listed')
            return None
        n, c = hold[0]
        el = n.a['lv'][1]
        k = self.place_of(n.a['v'], mp)
        pv = n.a['v']
        if pv[0] == 'addr' and pv[1][0] == 'ix' and pv[1][1] == self.buffer and Q.arith(pv[1][2]) and not S.any_t(pv[1][2], lambda z: z[0] == 'phi'):
            rep.bad('R5', n.at, self.q + ': the place of a variable is the one of its position among all the variables')
            return None
        node = k[1] if k and k[0] == 'mem' and k[2] == f['nvar'] else None
        if node is None or not (node[0] == 'ix' and node[1][0] == 'mem' and node[1][2] == f['cnodes']):
            rep.und('R5', n.at, self.q + ': variable that is sampled')
            return None
        cl = node[1][1]
        if not (cl[0] == 'ix' and cl[1] == self.K):
            rep.und('R5', n.at, self.q + ': cluster of the variables that are sampled')
            return None
        l1, l2 = Q.loop_of(c, cl[2]), Q.loop_of(c, node[2])
        if l1 is None or l2 is None:
            rep.judge(False if S.is_num(cl[2]) or S.is_num(node[2]) else None, 'R5', n.at, self.q + ': every hidden variable is sampled')
            return None
        w = Q.worst([cov(l1, size_of(self.K)), cov(l2, size_of(node[1]))])
        cs = [x for x in inside(c, l1) if x[0] in ('if', 'try')]
        if cs:
            w = self.left_out(cs, node, cl)
        rep.judge(w, 'R5', n.at, self.q + ': every hidden variable is sampled')
        pushes = [(x, y) for x, y in self.evs if ev(x, 'mut') and x.a.get('new') == el]
        if len(pushes) != 1 or Q.loops(pushes[0][1]) != Q.loops(c):
            rep.und('R5', n.at, self.q + ': one entry for each variable')
        # static part
        st = [(x, y) for x, y in self.evs if ev(x, 'set') and x.a['lv'] == S.mem(el, 'static_dependencies')]
        if len(st) != 1:
            rep.judge(None if st or self.opaque else False, 'R5', n.at, self.q + ': the unary factors of the variable are known')
        for x, y in st:
            v = strip(x.a['v'])
            rep.judge(True if v == S.mem(node, f['merged']) else False if v[0] == 'mem' and v[2] == f['merged'] and
                      v[1][0] == 'ix' and v[1][1] == node[1] and Q.same_index(v[1][2], node[2]) is False or
                      v[0] == 'mem' and v[2] == 'static_dependencies' and v[1][0] in ('ix', 'front', 'back') and v[1][1] == el[2] else None,
                      'R5', x.at, self.q + ': the unary factors are those of the same variable')
            up = [Q.pos(self.evs, z) for z, zc in self.evs if ev(z, 'call') and z.a['n'] == 'updateMergedUnaries' and strip(z.a.get('o') or ('nil',)) == node
                  and plain(inside(zc, l1) or ())]
            anyup = [z for z, zc in self.evs if ev(z, 'call') and z.a['n'] == 'updateMergedUnaries']
            inl = any(ev(z, 'set', 'read') and strip(z.a['lv']) == S.mem(node, f['merged']) and z is not x and ev(z, 'set') for z, _ in self.evs)
            i = Q.pos(self.evs, x)
            w = True if any(u < i for u in up) else False if up else None if anyup or inl or self.opaque else False
            rep.judge(w, 'R5', x.at, self.q + ': the unary factors are merged before they are used')
        self.deps(el, node, mp, l2)
        return el[2]

    def left_out(self, cs, node, cl):
        """are some of the nodes left out"""
        for x in cs:
            if x[0] == 'try':
                return None
            g = x[1] if x[2] else ('!', x[1])
            if g in (('isset', node), ('!', ('rel', '==', ('size', S.mem(cl, self.m.f['cnodes'])), S.lit(0)))):
                continue
            f = self.m.f
            if any(S.has(g, S.mem(node, f[z])) for z in ('active', 'disabled', 'unaries')) or Q.arith_cond(g) or S.has(g, ('size', S.mem(cl, f['cnodes']))):
                return False
            return None
        return True

    def deps(self, el, node, mp, l2):
        rep, f = self.rep, self.m.f
        D = S.mem(el, 'dynamic_dependencies')
        A = S.mem(node, f['active'])
        ps = [(n, c) for n, c in self.evs if ev(n, 'mut') and n.a['C'] == D and n.a['op'] == 'push']
        if not ps:
            touched = any(any(isinstance(v, tuple) and S.has(v, A) for v in n.a.values()) for n, _ in self.evs)
            rep.judge(None if touched or self.opaque else False, 'R5', self.at, self.q + ': the values of the connected variables are considered')
            return
        for x, _ in self.evs:
            if ev(x, 'mut') and x.a['C'] == D and x.a['op'] in ('pop', 'pop_back', 'erase'):
                rep.bad('R5', x.at, self.q + ': no connection is dropped')
        for n, c in ps:
            k = inside(c, l2)
            ls = Q.loops(k) if k is not None else []
            if len(ls) != 1:
                rep.und('R5', n.at, self.q + ': loop on the connections')
                continue
            C = ls[0][1].a['C']
            if C is not None and C[0] == 'mem' and C[2] == f['disabled'] and C[1] == node:
                rep.bad('R5', n.at, self.q + ': the observed connections, already in the unary part, are not considered twice')
                continue
            if C != A:
                rep.und('R5', n.at, self.q + ': connections that are considered')
                continue
            i = ls[0][1].a['i']
            key = ('key', A, i)
            w = cov(ls[0], size_of(A))
            cs = [x for x in inside(c, ls[0]) if x[0] in ('if', 'try')]
            if cs:
                w = None
                g = [x[1] for x in cs if x[0] == 'if']
                if g and all(S.has(x, key) or Q.arith_cond(x) for x in g):
                    w = None if any(S.any_t(x, lambda z: z[0] == 'isset') for x in g) else False
            rep.judge(w, 'R5', n.at, self.q + ': every connected variable is considered')
            e = n.a['new']
            want = {'sender': S.mem(key, f['nvar']), 'factor': S.mem(('val', A, key), f['cfactor'])}
            got = {}
            for x, y in self.evs:
                if ev(x, 'set') and x.a['lv'][0] == 'mem' and x.a['lv'][1] == e:
                    got.setdefault(x.a['lv'][2], []).append(x)
            for fld in ('sender', 'factor', 'sender_value_in_combination'):
                xs = got.get(fld) or []
                if len(xs) != 1:
                    rep.judge(None if xs or n.a.get('v') or self.opaque or not got else False, 'R5', n.at, self.q + ': the connection is recorded with its ' + fld)
                    continue
                x = xs[0]
                if fld == 'sender_value_in_combination':
                    v = self.place_of(x.a['v'], mp)
                    w = True if v == want['sender'] else False if v == S.mem(node, f['nvar']) else None
                else:
                    v = strip(x.a['v'])
                    w = True if v == want[fld] else False if fld == 'sender' and v == S.mem(node, f['nvar']) else \
                        False if v[0] == 'mem' and v[1][0] == 'val' and v[1][1] == A and v[1][2][0] == 'key' and v[1][2][1] == A and Q.same_index(v[1][2][2], i) is False else None
                rep.judge(w, 'R5', x.at, self.q + ': the connection is recorded with the %s of the same neighbour' % fld)

    # ------------------------------------------------------------------ tasks
    def tasks(self, V):
        rep = self.rep
        ts = [(n, c) for n, c in self.evs if ev(n, 'mut') and n.a.get('task') and n.a['op'] == 'push']
        if not ts:
            rep.und('R4', self.at, self.q + ': tasks')
            return
        self.subject = {}
        for n, c in ts:
            self.task(n)
        T = getattr(self, 'tasks_var', None)
        for x, y in self.evs:
            if T is not None and ev(x, 'mut') and x.a['C'] == T and (x.a['op'] in ('pop', 'pop_back', 'erase') or x.a['op'] == 'resize' and S.is_num(x.a['key'])):
                rep.bad('R4', x.at, self.q + ': no batch is dropped')
        if V is not None:
            al = {V} | {x.a['lv'] for x, _ in self.evs if ev(x, 'decl') and x.a.get('v') == V}
            for x, y in self.evs:
                if ev(x, 'mut') and x.a['C'] in al and x.a['op'] in ('pop', 'pop_back', 'erase', 'clear', 'resize'):
                    rep.judge(None if x.a['op'] in ('resize', 'clear') else False, 'R4', x.at, self.q + ': no variable is dropped')
            vs = {l[1].a['C'] for _, y in self.evs for l in Q.loops(y)} & al
            if V not in vs and len(vs - {V}) == 1:
                V = next(iter(vs))
        self.all_nodes(ts, V)

    def task(self, t):
        rep = self.rep
        body = [(n, c[[i for i, x in enumerate(c) if x[0] == 'task' and x[1] is t][0] + 1:]) for n, c in self.evs if any(x[0] == 'task' and x[1] is t for x in c)]
        opaque = any(ev(n, 'opq') for n, _ in body)
        outs = [(n, c) for n, c in body if ev(n, 'set') and n.a['lv'][0] == 'deref' and n.a['lv'][1][0] == 'mem' and n.a['lv'][1][2] == 'value_in_combination']
        if len(outs) != 1:
            rep.judge(None if outs or opaque or any(ev(n, 'set') for n, _ in body) else False, 'R6', t.at, self.q + ': the task draws the value of its variable')
            return
        n, c = outs[0]
        N = n.a['lv'][1][1]
        self.subject[id(t)] = N
        v = n.a['v']
        if not plain(c):
            rep.judge(False if any(x[0] == 'if' and S.any_t(x[1], lambda z: z[0] == 'call' and z[1] == 'sampleFromDiscrete') for x in c) else None,
                      'R6', n.at, self.q + ': the value is always drawn')
        if not (v[0] == 'call' and v[1] == 'sampleFromDiscrete' and v[3]):
            rep.judge(False if S.is_num(v) or v[0] == 'cond' and any(S.is_num(z) for z in v[2:]) and any(z[0] == 'call' and z[1] == 'sampleFromDiscrete' for z in v[2:]) else None, 'R6', n.at, self.q + ': the value is drawn')
            return
        d = v[3][0]
        if not (d[0] == 'call' and d[1] == 'getProbabilities' and d[2][0] == 'ctor' and d[2][1].endswith('MergedUnaries') and d[2][2]):
            rep.judge(False if d[0] == 'call' and d[1] == 'getProbabilities' and strip(d[2]) == S.mem(N, 'static_dependencies') and plain(c) else None,
                      'R6', n.at, self.q + ': the distribution that is drawn from considers the connected variables')
            return
        Fs = strip(d[2][2][0])
        if Fs[0] != 'var':
            rep.und('R6', n.at, self.q + ': factors behind the distribution')
            return
        wts = [1 for x in d[3] if isinstance(x, tuple) and not (S.is_num(x) and x[1] == 1)]
        if wts:
            rep.und('R6', n.at, self.q + ': weight of the distribution')
        ctor = next((i for i, (x, _) in enumerate(body) if ev(x, 'ctor') and x.a.get('r') == d[2]), None)
        items = []
        for i, (x, y) in enumerate(body):
            if ev(x, 'decl') and x.a['lv'] == Fs and x.a.get('v') and x.a['v'][0] == 'list':
                items += [(x, y, strip(z), i) for z in x.a['v'][1:]]
            elif ev(x, 'mut') and x.a['C'] == Fs:
                if x.a['op'] == 'push' and x.a.get('v'):
                    items.append((x, y, strip(x.a['v']), i))
                elif x.a['op'] in ('pop', 'pop_back', 'erase') and items:
                    rep.bad('R6', x.at, self.q + ': no factor is dropped')
                    return
                elif x.a['op'] not in ('reserve',):
                    rep.und('R6', x.at, self.q + ': factors behind the distribution')
                    return
        st = [z for z in items if z[2] == S.mem(N, 'static_dependencies')]
        if len(st) == 1 and plain(st[0][1]) and not Q.loops(st[0][1]):
            rep.ok('R6', st[0][0].at, self.q + ': the unary factors take part')
        elif not st:
            rep.judge(None if opaque else False, 'R6', n.at, self.q + ': the unary factors take part')
        else:
            rep.judge(False if len(st) > 1 and all(plain(z[1]) for z in st) else None, 'R6', n.at, self.q + ': the unary factors take part once')
        D = S.mem(N, 'dynamic_dependencies')
        dy = []
        for x, y, z, i in items:
            if z == S.mem(N, 'static_dependencies'):
                continue
            src = None
            if z[0] == 'new':
                src = next((q for q, _ in body if ev(q, 'mut') and q.a.get('new') == z), None)
            a = src.a.get('v') if src is not None else None
            if a is not None and a[0] == 'ctor':
                a = ('args',) + tuple(a[2])
            if a is None or a[0] != 'args' or len(a) != 4:
                rep.und('R6', x.at, self.q + ': factor behind the distribution')
                continue
            self.evidence(x, y, a, D)
            dy.append(x)
            if ctor is not None and i > ctor:
                rep.bad('R6', x.at, self.q + ': the factors are all there when they are merged')
        if not dy:
            und = any(o[0] == 'undecided' for o in self.rep.obl) if hasattr(self.rep, 'obl') else True
            rep.judge(None if opaque or und else False, 'R6', n.at, self.q + ': the values of the connected variables take part')

    def evidence(self, x, ctx, a, D):
        rep = self.rep
        fac, snd, val = (strip(z) for z in a[1:])
        if not (fac[0] == 'mem' and snd[0] == 'mem' and val[0] == 'mem'):
            rep.judge(False if S.is_num(val) else None, 'R6', x.at, self.q + ': each factor is reduced by the value of the connected variable')
            return
        dep = fac[1]
        if dep[0] != 'ix' or dep[1] != D:
            rep.und('R6', x.at, self.q + ': connection that takes part')
            return
        w = Q.worst([fac[2] == 'factor' or None, snd[2] == 'sender' or None, val[2] == 'sender_value_in_combination' or (False if val[2] == 'value_in_combination' else None)] +
                    [(True if z[1] == dep else False if z[1][0] == 'ix' and z[1][1] == D and Q.same_index(z[1][2], dep[2]) is False else
                      False if val[2] == 'value_in_combination' else None) for z in (snd, val)])
        rep.judge(w, 'R6', x.at, self.q + ': each factor is reduced by the current value of the connected variable')
        lp = Q.loop_of(ctx, dep[2])
        w = cov(lp, size_of(D)) if lp else (False if S.is_num(dep[2]) else None)
        k = inside(ctx, lp) if lp else ()
        if w and not plain(k):
            g = [z[1] for z in k if z[0] == 'if']
            w = False if g and all(Q.arith_cond(z) or S.has(z, val) or S.has(z, ('deref', val)) for z in g) else None
        elif w and not plain(ctx):
            w = None
        rep.judge(w, 'R6', x.at, self.q + ': every connection takes part')

    def all_nodes(self, ts, V):
        """one task for each variable"""
        rep = self.rep
        if V is None:
            return
        for n, c in ts:
            ls = Q.loops(c)
            L = next((l for l in ls if l[1].a['C'] == V or l[1].a['hi'] == ('size', V)), None)
            if L is not None:
                w = cov(L, size_of(V))
                if not plain(inside(c, L)):
                    g = [x[1] for x in inside(c, L) if x[0] == 'if']
                    w = False if g and all(Q.arith_cond(x) or S.any_t(x, lambda z: z[0] == 'mem' and z[2] == 'dynamic_dependencies') for x in g) and \
                        len([1 for x, y in ts if inside(y, L) is not None]) == 1 and not S.any_t(g[0], lambda z: z[0] == 'in') else None
                rep.judge(w, 'R4', n.at, self.q + ': every variable has a task')
                N = self.subject.get(id(n))
                if N is not None and N[0] == 'ix' and N[1] == V:
                    rep.judge(Q.same_index(N[2], L[1].a['i']), 'R4', n.at, self.q + ': the task is the one of that variable')
                continue
            # a list of what is still to do
            er = [(x, y) for x, y in self.evs if ev(x, 'mut') and x.a['op'] in ('erase', 'pop', 'pop_front', 'pop_back') and x.a['C'][0] == 'var' and Q.loops(y) and Q.loops(y)[0] in ls]
            todo = {x.a['C'] for x, _ in er}
            if len(todo) != 1:
                rep.und('R4', n.at, self.q + ': variables that have a task')
                continue
            O = next(iter(todo))
            fill = [(x, y) for x, y in self.evs if ev(x, 'mut') and x.a['C'] == O and x.a['op'] == 'push']
            w = None
            if len(fill) == 1 and fill[0][0].a.get('v'):
                e = strip(fill[0][0].a['v'])
                fl = Q.loop_of(fill[0][1], e[2]) if e[0] == 'ix' and e[1] == V else None
                if fl is not None:
                    w = cov(fl, size_of(V))
                    if w and not plain(inside(fill[0][1], fl)):
                        w = False if all(S.has(x[1], e) or Q.arith_cond(x[1]) for x in inside(fill[0][1], fl) if x[0] == 'if') else None
            rep.judge(w, 'R4', (fill[0][0] if fill else n).at, self.q + ': every variable is in the list of what is to be done')
            for x, y in er:
                if y == c:
                    w = True
                elif len(er) == 1:
                    # taken from the list in more cases than a task is made
                    w = False if len(y) < len(c) and c[:len(y)] == y and any(z[0] == 'if' for z in c[len(y):]) and not any(z[0] == 'loop' for z in c[len(y):]) else None
                else:
                    apart = any(z[0] == 'if' and ('if', z[1], not z[2]) in c for z in y)
                    w = False if apart and Q.loops(y) == Q.loops(c) and not any(y2 == y for _, y2 in ts) else None
                rep.judge(w, 'R4', x.at, self.q + ': a variable leaves that list when it gets its task')
            O2 = ('size', O)
            w = None
            g = ls[0][1].a['c'] if ls[0][1].a['lk'] == 'while' else None
            if g is not None:
                if g in (('!', ('rel', '==', O2, S.lit(0))), ('rel', '<', S.lit(0), O2)):
                    w = None if ls[0][2] else True
                elif g[0] in ('rel', '!') and S.has(g, O2) and all(z[1] > 0 for z in S.all_t(g, S.is_num)) and S.all_t(g, S.is_num):
                    w = None if g == ('!', ('rel', '<', O2, S.lit(1))) else False
            rep.judge(w, 'R4', n.at, self.q + ': the batches are made until that list is empty')

    # ---------------------------------------------------------------- engines
    def engines(self):
        rep = self.rep
        sd = self.opt('seed')
        cs = [(n, c) for n, c in self.evs if ev(n, 'call') and n.a['n'] == 'resetSeed']
        if not cs:
            seen = any(any(isinstance(v, tuple) and S.has(v, sd) for v in n.a.values()) for n, _ in self.evs)
            rep.judge(None if seen or self.opaque else False, 'R7', self.at, self.q + ': the seed that was given is used')
            return
        for n, c in cs:
            o = strip(n.a.get('o') or ('nil',))
            lp = Q.loop_of(c, o[2]) if o[0] == 'ix' else None
            if lp is None:
                rep.judge(False if len(cs) == 1 and o[0] == 'ix' and S.is_num(o[2]) and not Q.loops(c) else None, 'R7', n.at, self.q + ': every engine is seeded')
            else:
                w = cov(lp, lambda h: h == ('size', o[1]) or h in self.sizes(o[1]))
                if not plain(inside(c, lp)):
                    simple = lambda t: t[0] in ('i', 'phi', 'size') or S.is_num(t) or strip(t) == sd or t[0] in ('+', '-', '*', '%', '/', 'rel', '!') and all(simple(z) for z in t[1:] if isinstance(z, tuple))
                    w = False if all(x[0] == 'if' and simple(x[1]) for x in inside(c, lp)) and len(cs) == 1 else None
                rep.judge(w, 'R7', n.at, self.q + ': every engine is seeded')
            g = [x for x in c if x[0] == 'if']
            k = n.a['args'][0] if n.a.get('args') else None
            if k is not None:
                clock = S.any_t(k, lambda z: z[0] == 'call' and z[1] in ('time', 'now', 'clock', 'rand'))
                rep.judge(False if clock and any(x[0] == 'if' and (x[1], x[2]) == (('isset', sd), True) for x in c) or S.is_num(k) else True if S.has(k, sd) else None,
                          'R7', n.at, self.q + ': the engines are seeded with what was given')
            if len(g) == 1:
                rep.judge(True if (g[0][1], g[0][2]) in ((('isset', sd), True), (('!', ('isset', sd)), False)) else
                          False if (g[0][1], g[0][2]) in ((('isset', sd), False), (('!', ('isset', sd)), True)) or
                          g[0][2] and ('isset', sd) in conj(g[0][1]) and all(z == ('isset', sd) or z[0] in ('rel', '!') and z[0] != 'in' and not S.any_t(z, lambda y: y[0] == 'size') for z in conj(g[0][1])) else None, 'R7', n.at, self.q + ': when it was given')
            i = Q.pos(self.evs, n)
            for j, (x, y) in enumerate(self.evs):
                if ev(x, 'mut') and o[0] == 'ix' and x.a['C'] == o[1] and x.a['op'] in ('resize', 'push', 'clear') and j > i:
                    rep.judge(False if lp is not None and not any(z[0] == 'if' for z in y) and x.a['op'] != 'push' else None, 'R7', x.at, self.q + ': the engines are there when they are seeded')

    def sizes(self, C):
        return [n.a['key'] for n, _ in self.evs if ev(n, 'mut') and n.a['C'] == C and n.a['op'] == 'resize']


def sampler(p, rep):
    """the first value whose cumulated probability reaches the draw"""
    fs = [f for f in p.fns(US + '::sampleFromDiscrete') if f.get('body')]
    if not fs:
        rep.und('R8', US, 'drawing a value')
        return
    f = fs[0]
    rep.fn(f)
    at = (f['file'], f['l'])
    evs = Q.walk(S.Sym(p, keep={'sample'}).build(f))
    D = ('p', 0, f['params'][0]['n'])
    rets = [(n, c) for n, c in evs if n.k == 'ret' and n.a.get('v') and not (n.a['v'][0] == 'call' and n.a['v'][1] == 'sample')]
    for n, c in rets:
        v = n.a['v']
        ls = Q.loops(c)
        if not ls:
            if any(x[0] == 'if' for x in c):
                pass
            w = True if v == ('-', ('size', D), S.lit(1)) else False if v == ('size', D) or S.is_num(v) and not c else None
            rep.judge(w, 'R8', n.at, f['q'] + ': when rounding leaves the whole sum below the draw the last value is given')
            continue
        if len(ls) != 1:
            rep.und('R8', n.at, f['q'] + ': value that is given')
            continue
        a = ls[0][1].a
        i = a['i']
        if v != i:
            rep.judge(False if v[0] in ('+', '-') and v[1] == i and S.is_num(v[2]) else None, 'R8', n.at, f['q'] + ': the value is the one that was reached')
        w = cov((ls[0][0], ls[0][1], False), size_of(D))
        h = a['hi']
        if w is False and a['lo'] == S.lit(0) and h == ('-', ('size', D), S.lit(1)):
            w = None
        rep.judge(w, 'R8', n.at, f['q'] + ': all the values may be drawn')
        g = [x for x in c if x[0] == 'if']
        w = None
        if len(g) == 1:
            t = g[0][1] if g[0][2] else ('!', g[0][1])
            while t[0] == '!' and t[1][0] == '!':
                t = t[1][1]
            if len(disj(t)) > 1 and any(S.has(z, ('ix', D, i)) and not S.any_t(z, lambda y: y[0] == 'call') for z in disj(t)):
                rep.bad('R8', n.at, f['q'] + ': only the cumulated probability decides')
                continue
            if not S.any_t(t, lambda y: y[0] in ('call', 'phi') and y[0] == 'call') and not any(ev(x, 'call') for x, _ in evs):
                rep.bad('R8', n.at, f['q'] + ': the value depends on a random draw')
                continue
            neg = t[0] == '!'
            r = t[1] if neg else t
            if r[0] == 'rel' and r[1] == '<':
                lo, hi = (r[3], r[2]) if neg else (r[2], r[3])   # lo below (or equal) hi
                draw = lambda z: z[0] == 'call' and z[1] == 'sample'
                e = ('ix', D, i)

                def full(z):
                    return z[0] == '+' and z[1][0] == 'phi' and z[2] == e and z[1][3] == S.lit(0) and acc(z[1])

                def acc(ph):
                    st = [x for x, y in evs if ev(x, 'setv') and x.a['d'] == ph[2]]
                    return len(st) == 1 and st[0].a['v'] == ('+', ph, e)
                if draw(lo) and full(hi):
                    w = True
                elif draw(hi) and full(lo):
                    w = False
                elif draw(lo) and hi[0] == '+' and hi[1][0] == 'phi' and a['lo'] == S.lit(0) and (
                        hi[2] == e and hi[1][3] == ('ix', D, S.lit(0)) or hi[2] != e and hi[2][0] in ('*', '/', '+', '-') and S.has(hi[2], e)):
                    w = False
                elif lo[0] in ('*', '/', '+', '-') and any(draw(z) for z in lo[1:]) and any(S.is_num(z) or S.has(z, e) for z in lo[1:]) and full(hi):
                    w = False
                elif draw(lo) and (hi == e or hi[0] == 'phi' and hi[3] == S.lit(0) and acc(hi) and v == i):
                    w = False
        rep.judge(w, 'R8', n.at, f['q'] + ': the first value whose cumulated probability reaches the draw')
    if not rets:
        rep.und('R8', at, f['q'] + ': value that is given')


def seeding(p, rep):
    for f in p.fns(US + '::resetSeed'):
        if not f.get('body'):
            continue
        rep.fn(f)
        evs = Q.walk(S.Sym(p, keep=set()).build(f))
        P0 = ('p', 0, f['params'][0]['n'])
        cs = [n for n, c in evs if ev(n, 'call') and n.a['n'] == 'seed' and plain(c)]
        w = None
        if len(cs) == 1 and cs[0].a.get('args'):
            k = cs[0].a['args'][0]
            w = True if S.has(k, P0) else False if S.is_num(k) else None
        elif not cs and not any(ev(n, 'set', 'call', 'mut', 'opq') for n, _ in evs):
            w = False
        elif cs and not cs[0].a.get('args'):
            w = False
        rep.judge(w, 'R7', (f['file'], f['l']), f['q'] + ': the engine restarts from the seed')


def run(p, rep):
    rep.rule('R1', 'as many samples as asked, and the values evolve at least once between a sample and the next')
    rep.rule('R2', 'the transient that was asked (or ten times what separates two samples) runs before the first sample')
    rep.rule('R3', 'the k-th value of a sample is the one of the k-th variable, and every observed variable has its observed value')
    rep.rule('R4', 'every hidden variable has a task in a batch, and every batch runs at each iteration')
    rep.rule('R5', 'each hidden variable is listed once, with its own place, its own merged unary factors and one entry for each hidden neighbour: that neighbour, its place, the factor in between')
    rep.rule('R6', 'a task draws the value of its own variable from the product of its unary factors and of every factor in between reduced by the current value of the neighbour')
    rep.rule('R7', 'a seed that is given restarts every engine')
    rep.rule('R8', 'a draw gives the first value whose cumulated probability reaches it')
    fs = [f for f in p.fns(GS + '::makeSamples') if f.get('body')]
    if not fs:
        rep.missing('makeSamples')
        return
    for f in fs:
        rep.fn(f)
        g = Gibbs(p, rep, f)
        g.result()
        mp = g.places()
        V = g.nodes(mp) if mp else None
        g.tasks(V)
        g.engines()
    sampler(p, rep)
    seeding(p, rep)
