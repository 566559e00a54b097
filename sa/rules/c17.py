"""Each value of a combination is read and written at the position of its own variable (case analysis on the place of
a variable in a factor; symbolic positions in a group; every site that reduces, sends, merges, permutes or looks up)."""
import sym as S
import seqs as Q
import bags as B
import cases as K
import model as M
import prog as P

FA = 'EFG::factor::'
KEEP = {'set', 'findTransformed', 'findImage', 'for_each_combination', 'forEachNonNullCombination', 'locate', 'findVariable', 'getProbabilities'}
ASSUME = ['the group of a factor keeps its order (C18)', 'iterating a factor visits its combinations in their order (C18)']


def run(p, rep):
    rep.rule('R1', 'reducing a binary factor by an observed value selects that value at the place of the observed variable and stores the images at the values of the other one')
    rep.rule('R2', 'a message is over the variable that is not the sender; the binary factor is evaluated with the value of each at its own place, over all the values of both; sum or maximum as its kind')
    rep.rule('R3', 'looking up a factor with a combination of a bigger group extracts, for each variable of the factor, the value at the place that variable has in the bigger group')
    rep.rule('R4', 'permuting the group of a factor moves the value of each variable to the new place of that variable')
    rep.rule('R5', 'merging evaluates a factor directly only if its variables are in the same order as those of the result, otherwise through the lookup by variable')
    rep.rule('R6', 'the message of an observed neighbour is made with the factor of that connection, the observed variable and its own value')
    rep.rule('R7', 'the gradient of a binary factor meets the distribution of each variable with its own value of the combination')
    m = M.Model(p)
    evidence(p, rep)
    message(p, rep, 'MessageSUM', 'sum')
    message(p, rep, 'MessageMAP', 'max')
    finder(p, rep)
    permute(p, rep)
    merge(p, rep)
    observed(p, rep, m)
    gradient(p, rep, m)
    hidden(p, rep)
    raw(p, rep)


def tree(p, rep, fn, keep=KEEP):
    rep.fn(fn)
    return Q.walk(S.Sym(p, keep=keep).build(fn))


def group(f):
    return S.mem(S.mem(f, 'variables_'), 'group')


def ctor(p, cls, n):
    return [x for x in p.fns(FA + cls + '::' + cls) if x.get('body') and len(x['params']) == n]


def aliases(evs):
    """members set once by the constructor"""
    out, twice = {}, set()
    for n, ctx in evs:
        if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'mem' and n.a['lv'][1] == ('this',):
            lv, v = n.a['lv'], n.a['v']
            if lv in out and out[lv] != v:
                twice.add(lv)
            out[lv] = v
    return {k: v for k, v in out.items() if k not in twice}


def built(evs):
    """argument the function of this factor is built for"""
    for n, ctx in evs:
        if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'] == S.mem(('this',), 'function_') and n.a['v'][0] == 'make':
            x = n.a['v'][2]
            if len(x) == 1:
                x = x[0]
                if x[0] in ('make', 'ctor') and str(x[1]).endswith('Group') and len(x[2]) == 1:
                    x = x[2][0]
                if x[0] == 'list' and len(x) == 2:
                    x = x[1]
                return x
    return None


def live(case, ctx):
    """the conditions that do not depend on the case, or None when the case excludes them"""
    out = []
    for c in Q.conds(ctx):
        v = case.truth(c[1])
        if v is None:
            out.append(c)
        elif v != c[2]:
            return None
    return out


def hof(ctx, i=None):
    for c in Q.loops(ctx):
        if c[1].a['lk'] == 'hof' and (i is None or c[1].a['i'] == i):
            C = c[1].a['C']
            return c, C[1], C[2], ''.join(C[4]) if isinstance(C[4], tuple) else str(C[4])
    return None


def comb(evs, upto, t, case, depth=0):
    """{position: value} of a combination of two values; None: not understood"""
    t = B.strip(t)
    if depth > 5:
        return None
    if t[0] == 'cond':
        c = case.truth(t[1])
        return None if c is None else comb(evs, upto, t[2] if c else t[3], case, depth + 1)
    if t[0] == 'list':
        return dict(enumerate(t[1:]))
    if t[0] != 'var':
        return None
    out, base = None, None
    for n, ctx in evs[:upto]:
        if n.k != 'ev':
            continue
        a = n.a
        if a['ek'] == 'decl' and a['lv'] == t:
            v = a.get('v')
            base = ctx
            out = {}
            if v is not None and v != ('list',):
                v = B.strip(v)
                if v[0] in ('list', 'cond', 'var'):
                    out = comb(evs, Q.pos(evs, n), v, case, depth + 1)
                elif v[0] in ('ctor', 'filled', 'rep') or v[0] == 'call':
                    out = {}
                else:
                    out = None
            continue
        if out is None:
            continue
        if a['ek'] == 'mut' and a['C'] == t:
            if live(case, B.rel(ctx, base)) != []:
                if live(case, B.rel(ctx, base)) is None:
                    continue
                return None
            if a['op'] == 'push' and a['v'] is not None and not a.get('front'):
                out[len(out)] = a['v']
            elif a['op'] in ('resize', 'reserve', 'assign'):
                pass
            else:
                return None
        elif a['ek'] == 'set' and a['lv'][0] == 'ix' and a['lv'][1] == t:
            l = live(case, B.rel(ctx, base))
            if l is None:
                continue
            k = case.num(a['lv'][2])
            if l or k is None:
                return None
            out[k] = a['v']
        elif a['ek'] == 'set' and S.has(a['lv'], t):
            return None
    return out


def size_of(t, case):
    """position of the variable whose size the term is"""
    if t[0] == 'mem' and t[2] == 'size_':
        return case.var(t[1])
    if t[0] == 'ix' and t[1][0] == 'mem' and t[1][2] == 'sizes':
        return case.num(t[2])
    if t[0] == 'cond':
        c = case.truth(t[1])
        return None if c is None else size_of(t[2] if c else t[3], case)
    return None


# ------------------------------------------------------------------ evidence
def evidence(p, rep):
    fns = ctor(p, 'Evidence', 3)
    if not fns:
        return rep.missing('factor of an evidence')
    for fn in fns:
        evs = tree(p, rep, fn)
        at = (fn['file'], fn['l'])
        G = group(S.mem(('p', 0, fn['params'][0]['n']), 'function_'))
        E, val = (('p', k, fn['params'][k]['n']) for k in (1, 2))
        al = aliases(evs)
        X = built(evs)
        for c, z in [(c, z) for c in (0, 1) for z in K.sized(evs)]:
            case = K.Case(G, {E: c}, al, z)
            w = ' (observed variable in place %d)' % c
            o = case.var(X) if X is not None else None
            rep.judge(None if o is None else o == 1 - c, 'R1', at, fn['q'] + ': is over the other variable' + w)
            got = 0
            for k, (n, ctx) in enumerate(evs):
                if n.k != 'ev' or n.a['ek'] != 'call' or n.a['n'] != 'set' or len(n.a['args']) != 2:
                    continue
                cs = live(case, ctx)
                if cs is None:
                    continue
                got += 1
                dst = comb(evs, k, n.a['args'][0], case)
                v = n.a['args'][1]
                if dst is None or len(dst) != 1 or 0 not in dst:
                    rep.judge(None, 'R1', n.at, fn['q'] + ': value of the other variable' + w)
                    continue
                dst = dst[0]
                h = hof(ctx)
                if v[0] == 'hp' and v[1] == 1 and h and v[2] == h[0][1].a['i']:
                    i = v[2]
                    if h[2] != S.mem(('p', 0, fn['params'][0]['n']), 'function_'):
                        rep.judge(None, 'R1', n.at, fn['q'] + ': images of the binary factor')
                        continue
                    rep.judge(h[3].startswith('true') and h[1] == 'forEachCombination', 'R1', n.at, fn['q'] + ': stores the images of the binary factor, null ones included')
                    d = case.num(dst[2]) if dst[0] == 'ix' and dst[1] == ('hp', 0, i) else None
                    rep.judge(None if d is None else d == 1 - c, 'R1', n.at, fn['q'] + ': stored at the value of the other variable' + w)
                    sel, rest = [], []
                    for x in flat(cs):
                        t, pol = x[1], x[2]
                        while t[0] == '!':
                            t, pol = t[1], not pol
                        s = None
                        if t[0] == 'rel' and t[1] == '==' and pol:
                            for a, b in ((t[2], t[3]), (t[3], t[2])):
                                if a[0] == 'ix' and a[1] == ('hp', 0, i) and b == val:
                                    s = case.num(a[2])
                        (sel if s is not None else rest).append(s if s is not None else x)
                    if rest:
                        import c18
                        ps = c18.passes([('if',) + positive(x[1], x[2]) for x in rest], v)
                        if ps is not None:
                            rest = []
                            sel = sel if ps else [None]
                    rep.judge(False if not cs else None if not sel or rest else sel == [c], 'R1', n.at, fn['q'] + ': selects the observed value at the place of the observed variable' + w)
                elif v[0] == 'call' and v[1] == 'findTransformed' and S.mem(('p', 0, fn['params'][0]['n']), 'function_') == v[2]:
                    src = comb(evs, k, v[3][0], case)
                    ok = None if src is None or set(src) != {0, 1} else src[c] == val and src[1 - c] == dst
                    if ok is False and not (src[1 - c] == val and src[c] == dst):
                        ok = None
                    rep.judge(ok, 'R1', n.at, fn['q'] + ': reads the image of the observed value' + w)
                    L = Q.loop_of(ctx, dst)
                    rep.judge(None if not L or cs else every(L, case, 1 - c), 'R1', n.at, fn['q'] + ': for all the values of the other variable' + w)
                else:
                    rep.judge(None, 'R1', n.at, fn['q'] + ': images')
            if not got:
                rep.und('R1', at, fn['q'] + ': images' + w)


def flat(cs):
    """conjunctions taken apart"""
    out = []
    for x in cs:
        t, pol = positive(x[1], x[2])
        if t[0] == '&&' and pol or t[0] == '||' and not pol:
            out += flat([('if', t[1], pol), ('if', t[2], pol)])
        else:
            out.append(('if', t, pol))
    return out


def positive(t, pol):
    while t[0] == '!':
        t, pol = t[1], not pol
    return t, pol


def every(L, case, pos):
    def sz(h):
        return size_of(h, case) == pos
    v = Q.covers(L, sz)
    if v is None and size_of(L[1].a['hi'] or ('x',), case) == 1 - pos:
        return False
    return v


# ------------------------------------------------------------------ messages
def message(p, rep, cls, kind):
    fns = ctor(p, cls, 2)
    if not fns:
        return rep.missing('messages')
    for fn in fns:
        evs = tree(p, rep, fn)
        at = (fn['file'], fn['l'])
        snd = ('p', 0, fn['params'][0]['n'])
        F = S.mem(('p', 1, fn['params'][1]['n']), 'function_')
        G = group(F)
        al = aliases(evs)
        X = built(evs)
        for c, z in [(c, z) for c in (0, 1) for z in K.sized(evs)]:
            case = K.Case(G, {S.mem(snd, 'variable'): c, ('ix', group(S.mem(snd, 'function_')), S.lit(0)): c}, al, z)
            w = ' (sender in place %d)' % c
            o = case.var(X) if X is not None else None
            rep.judge(None if o is None else o == 1 - c, 'R2', at, fn['q'] + ': is over the other variable' + w)
            got = 0
            for k, (n, ctx) in enumerate(evs):
                if n.k != 'ev' or n.a['ek'] != 'call' or n.a['n'] != 'set' or len(n.a['args']) != 2 or n.a['o'] != S.mem(('this',), 'function_'):
                    continue
                cs = live(case, ctx)
                if cs is None:
                    continue
                got += 1
                dst = comb(evs, k, n.a['args'][0], case)
                if dst is None or set(dst) != {0} or cs:
                    rep.judge(None, 'R2', n.at, fn['q'] + ': images of the message' + w)
                    continue
                r = dst[0]
                L = Q.loop_of(ctx, r)
                rep.judge(None if not L else every(L, case, 1 - c), 'R2', n.at, fn['q'] + ': for all the values of the other variable' + w)
                acc(rep, fn, evs, k, n, ctx, case, c, r, F, snd, kind, w)
            if not got:
                rep.und('R2', at, fn['q'] + ': images of the message' + w)


def acc(rep, fn, evs, k, n, ctx, case, c, r, F, snd, kind, w):
    """what the stored value accumulates"""
    v = n.a['args'][1]
    red = None
    start = None
    if v[0] == 'fold':
        red = [(v[2], v[4], None, None)]
        start = v[3]
    else:
        red = []
        for j in range(k - 1, -1, -1):
            x, cx = evs[j]
            if x.k != 'ev':
                continue
            if x.a['ek'] == 'decl' and (x.a['lv'] == v or S.has(v, x.a['lv'])):
                start = x.a.get('v')
                if start is not None and start[0] == 'rec' and v[0] == 'mem':
                    start = dict((y[0], y[1]) for y in start[2] if isinstance(y, tuple) and len(y) == 2).get(v[2])
                break
            if x.a['ek'] == 'set' and x.a['lv'] == v:
                red.append((x.a['op'], x.a['v'], j, cx))
            if x.a['ek'] == 'setv' and v[0] == 'var' and x.a.get('d') == v[1]:
                red.append((x.a['op'], x.a['v'], j, cx))
    if len(red) != 1:
        return rep.und('R2', n.at, fn['q'] + ': what the message accumulates' + w)
    op, t, j, cx = red[0]
    if op in ('=', '=='):
        if t[0] in ('max', 'min', '+') and (t[1] == v or t[2] == v):
            op, t = t[0], t[2] if t[1] == v else t[1]
        elif t[0] == 'cond' and t[1][0] == 'rel' and v in (t[2], t[3]) and t[1][1] in ('<', '<='):
            # x < y ? y : x
            o = t[3] if t[2] == v else t[2]
            lo, hi = t[1][2], t[1][3]
            if {lo, hi} == {o, v}:
                op, t = 'max' if t[2] == hi else 'min', o
    kind_of = {'+': 'sum', 'max': 'max', 'min': 'min', '*': 'product', '-': 'difference'}.get(op)
    rep.judge(None if kind_of is None else kind_of == kind, 'R2', n.at, '%s: takes the %s over the values of the sender' % (fn['q'], kind))
    if start is not None and S.is_num(start):
        rep.judge(start[1] == 0 if kind == 'sum' else start[1] < 1e-30, 'R2', n.at, '%s: the %s starts from nothing' % (fn['q'], kind))
    parts = factors(t)
    if len(parts) != 2:
        return rep.judge(False if len(parts) == 1 and (parts[0][0] == 'hp' or parts[0][0] == 'call') else None, 'R2', n.at, fn['q'] + ': the product of what the sender knows and of the binary factor' + w)
    call = [x for x in parts if x[0] == 'call' and x[1] in ('findTransformed', 'findImage') and x[2] == F]
    hp = [x for x in parts if x[0] == 'hp' and x[1] == 1]
    if len(call) != 1:
        return rep.und('R2', n.at, fn['q'] + ': image of the binary factor' + w)
    rep.judge(call[0][1] == 'findTransformed', 'R2', n.at, fn['q'] + ': uses the images of the binary factor')
    pos = k if j is None else j
    cb = comb(evs, pos, call[0][3][0], case)
    i = hp[0][2] if hp else None
    if cb is None or set(cb) != {0, 1} or i is None:
        # other forms of the loop on the sender
        if cb is not None and set(cb) == {0, 1} and call[0] in parts:
            o = [x for x in parts if x is not call[0]][0]
            if cb[1 - c] == r and o[0] == 'call' and o[3] and comb(evs, pos, o[3][0], case) == {0: cb[c]}:
                return rep.ok('R2', n.at, fn['q'] + ': each value stands at the place of its variable' + w)
            if cb[c] == r and o[0] == 'call' and o[3] and comb(evs, pos, o[3][0], case) == {0: cb[1 - c]}:
                return rep.bad('R2', n.at, fn['q'] + ': each value stands at the place of its variable' + w)
        return rep.und('R2', n.at, fn['q'] + ': combination of the binary factor' + w)
    h = None
    for x, cx2 in evs:
        y = hof(cx2, i)
        if y:
            h = y
            break
    if h is None or h[2] != S.mem(snd, 'function_'):
        rep.und('R2', n.at, fn['q'] + ': values of the sender' + w)
    else:
        rep.judge(h[1] == 'forEachCombination' and h[3].startswith('true'), 'R2', n.at, fn['q'] + ': over all the values of the sender')
    s = ('ix', ('hp', 0, i), S.lit(0))
    good = cb[c] == s and cb[1 - c] == r
    wrong = cb[1 - c] == s and cb[c] == r or cb[0] == cb[1]
    rep.judge(True if good else False if wrong else None, 'R2', n.at, fn['q'] + ': each value stands at the place of its variable' + w)


def factors(t):
    if t[0] == '*' and len(t) == 3:
        return factors(t[1]) + factors(t[2])
    return [t]


# ------------------------------------------------------------------ lookup in a bigger group
def finder(p, rep):
    fns = ctor(p, 'ImageFinder', 2)
    if not fns:
        return rep.missing('lookup')
    ind = None
    for fn in fns:
        evs = tree(p, rep, fn)
        at = (fn['file'], fn['l'])
        big = ('p', 1, fn['params'][1]['n'])
        mine = [group(S.mem(('this',), 'function_')), group(('p', 0, fn['params'][0]['n']))]
        done = False
        for k, (n, ctx) in enumerate(evs):
            if n.k != 'ev' or n.a['ek'] != 'set' or n.a['lv'][0] != 'mem' or n.a['lv'][1] != ('this',) or n.a['lv'][2] == 'function_':
                continue
            ind = n.a['lv']
            items = B.content(evs, n.a['v'], k)
            if items is None:
                break
            done = True
            v = places(items, lambda q: q == big, lambda g: g in mine, big, mine)
            rep.judge(v, 'R3', n.at, fn['q'] + ': place of each variable of the factor in the bigger group, in the order of the factor')
        if not done:
            # filled in place
            items = [B.Item(n.a['v'], ctx, n.at) for n, ctx in evs if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['op'] == 'push' and n.a['C'][0] == 'mem' and n.a['C'][1] == ('this',)]
            if len(items) == 1:
                ind = [n.a['C'] for n, ctx in evs if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['op'] == 'push' and n.a['C'][0] == 'mem'][0]
                rep.judge(places(items, lambda q: q == big, lambda g: g in mine, big, mine), 'R3', at, fn['q'] + ': place of each variable of the factor in the bigger group, in the order of the factor')
            else:
                rep.und('R3', at, fn['q'] + ': places')
    for name in ('findTransformed', 'findImage'):
        for fn in [x for x in p.fns(FA + 'ImageFinder::' + name) if x.get('body')]:
            # keep the lookup of the function itself only
            evs = tree(p, rep, fn, KEEP - {name} | {'findImage', 'findTransformed'})
            c = ('p', 0, fn['params'][0]['n'])
            hits = [(k, n, ctx) for k, (n, ctx) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] in ('findTransformed', 'findImage') and n.a['o'] == S.mem(('this',), 'function_')]
            if len(hits) != 1 or ind is None:
                rep.und('R3', (fn['file'], fn['l']), fn['q'] + ': lookup')
                continue
            k, n, ctx = hits[0]
            rep.judge(n.a['n'] == name if not Q.conds(ctx) else None, 'R3', n.at, fn['q'] + ': asks the factor for the same kind of image')
            items = B.content(evs, n.a['args'][0], k)
            v = None
            if n.a['args'][0] == c:
                v = False
            elif items is not None and len(items) == 1:
                it = items[0]
                ls = Q.loops(it.ctx)
                if len(ls) == 1 and not Q.conds(it.ctx):
                    i = ls[0][1].a['i']
                    cov = (None if ls[0][2] else True) if ls[0][1].a.get('C') == ind and ls[0][1].a['lk'] == 'each' else Q.covers(ls[0], lambda h: h in (('size', ind), ('size', group(S.mem(('this',), 'function_')))))
                    good = it.v == ('ix', c, ('ix', ind, i))
                    wrong = it.v in (('ix', c, i), ('ix', ind, i), ('ix', c, ('ix', ind, S.lit(0)))) or it.v[0] == 'ix' and it.v[1] == c and it.v[2][0] == 'ix' and it.v[2][1] == ind and Q.arith(it.v[2][2]) and it.v[2][2] != i
                    v = Q.worst([cov, True if good else False if wrong else None])
            rep.judge(v, 'R3', n.at, fn['q'] + ': extracts the values at those places')


def places(items, big, mine, BIG, MINE):
    """one place for each element of mine in order, found in big"""
    if len(items) != 1 or items[0].neg:
        return None
    it = items[0]
    ls = Q.loops(it.ctx)
    cs = [c for c in Q.conds(it.ctx) if not found(c)]
    if len(ls) != 1:
        return None
    L = ls[0]
    i = L[1].a['i']
    q = K.position(it.v)
    if q is None:
        return False if it.v == i and not cs or K.by_size(it.v) or elsewhere(it.v) else None
    C = L[1].a.get('C') if L[1].a['lk'] == 'each' else L[1].a['hi'][1] if L[1].a['hi'] and L[1].a['hi'][0] == 'size' else None
    if big(q[0]) and q[1][0] == 'ix' and mine(q[1][1]) and q[1][2] == i:
        cov = (None if L[2] else True) if L[1].a['lk'] == 'each' and C == q[1][1] else Q.covers(L, lambda h: h[0] == 'size' and mine(h[1]))
        return cov if not cs else False if cov and all(Q.arith_cond(c[1]) for c in cs) else None
    if mine(q[0]) and q[1][0] == 'ix' and (big(q[1][1]) or mine(q[1][1])) and not cs:
        return False
    return None


def elsewhere(v):
    """an amount other than the index of what was found"""
    if v[0] == 'cond':
        v = v[2]
    if v[0] != 'pick' or not Q.arith(v[3]):
        return False
    ix = set(S.all_t(v[3], lambda x: x[0] == 'i'))
    return v[3] not in ix and len(ix) <= 1


def found(c):
    """the element was found"""
    def t(x, pol):
        if x[0] == '!':
            return t(x[1], not pol)
        if x[0] == '&&' and pol:
            return t(x[1], pol) and t(x[2], pol)
        if x[0] == 'rel' and x[1] == '==' and not pol and (x[2][0] == 'end' or x[3][0] == 'end'):
            return True
        return x[0] in ('anyi', 'isset', 'in') and pol
    return t(c[1], c[2])


# ------------------------------------------------------------------ permutation
def permute(p, rep):
    fns = [x for x in p.fns(FA + 'Factor::cloneWithPermutedGroup') if x.get('body')]
    if not fns:
        return rep.missing('permutation')
    for fn in fns:
        evs = tree(p, rep, fn)
        old = group(S.mem(('this',), 'function_'))
        new0 = ('p', 0, fn['params'][0]['n'])

        def isnew(t):
            if t == S.mem(new0, 'group'):
                return True
            return t[0] == 'mem' and t[2] == 'group' and t[1][0] == 'mem' and t[1][2] == 'variables_' and t[1][1][0] in ('make', 'ctor') and t[1][1][2] == (new0,)

        def isold(t):
            return t == old
        hits = [(k, n, ctx) for k, (n, ctx) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'set' and len(n.a['args']) == 2]
        if len(hits) != 1:
            rep.und('R4', (fn['file'], fn['l']), fn['q'] + ': images')
            continue
        k, n, ctx = hits[0]
        h = hof(ctx)
        if not h or h[2] != S.mem(('this',), 'function_') or Q.conds(ctx):
            rep.und('R4', n.at, fn['q'] + ': images')
            continue
        i = h[0][1].a['i']
        rep.judge(None if not isnew_fn(n.a['o'], new0) else True, 'R4', n.at, fn['q'] + ': the images are stored in the factor with the new order')
        rep.judge(False if h[3].startswith('true') else True if h[3].startswith('false') and n.a['args'][1] == ('hp', 1, i) else None, 'R4', n.at, fn['q'] + ': the images are the raw ones')
        dst = B.strip(n.a['args'][0])
        if dst == ('hp', 0, i):
            rep.bad('R4', n.at, fn['q'] + ': values are moved to the new places')
            continue
        moves = []
        for j, (x, cx) in enumerate(evs[:k]):
            if x.k != 'ev':
                continue
            if x.a['ek'] == 'set' and x.a['lv'][0] == 'ix' and x.a['lv'][1] == dst:
                moves.append((j, x.a['lv'][2], x.a['v'], cx))
            if x.a['ek'] == 'mut' and x.a['C'] == dst and x.a['op'] == 'push' and x.a['v'] is not None:
                ls = Q.loops(cx)
                moves.append((j, ls[-1][1].a['i'] if ls else None, x.a['v'], cx))
        if len(moves) != 1 or moves[0][1] is None:
            rep.und('R4', n.at, fn['q'] + ': values are moved to the new places')
            continue
        j, d, v, cx = moves[0]
        L = Q.loops(cx)[-1]
        comb0 = ('hp', 0, i)
        if v[0] != 'ix' or v[1] != comb0:
            rep.und('R4', n.at, fn['q'] + ': values are moved to the new places')
            continue
        a = where(evs, j, d, isnew, L)
        b = where(evs, j, v[2], isold, L)
        rep.judge(None if a is None or b is None else a != 'wrong' and b != 'wrong' and same(a, b, isold, isnew), 'R4', n.at, fn['q'] + ': the value of each variable is moved to the new place of that variable')
        rep.judge(None if L[1].a['lk'] == 'hof' else Q.covers(L, lambda z: z in (('size', comb0), ('size', old)) or z[0] == 'size' and (isnew(z[1]) or z[1][0] == 'var')) if not (L[1].a['lk'] == 'each' and (L[1].a['C'] == comb0 or isold(L[1].a['C']) or isnew(L[1].a['C']))) else (None if L[2] else True),
                  'R4', n.at, fn['q'] + ': all the values are moved')


def isnew_fn(t, new0):
    return t[0] in ('make', 'ctor') and t[2] == (new0,)


def same(a, b, isold, isnew):
    # ('at', which, index)
    return a == b


def where(evs, upto, t, right, L):
    """the variable whose place in the right group the index is: ('old'|'new', index); 'wrong': place in the other group"""
    i = L[1].a['i']
    t = Q.counter(evs, t, L)
    if t == i:
        return (kind(right), i)
    if t[0] == 'ix' and t[1][0] == 'var':
        t = (t[0], t[1], Q.counter(evs, t[2], L))
        if not Q.arith(t[2]):
            return None
        items = B.content(evs, t[1], upto)
        if items is None or len(items) != 1 or len(Q.loops(items[0].ctx)) != 1 or [c for c in Q.conds(items[0].ctx) if not found(c)]:
            return None
        q = K.position(items[0].v)
        if K.loose(items[0].v):
            return 'wrong'
        i2 = Q.loops(items[0].ctx)[0][1].a['i']
        if q is None or q[1][0] != 'ix' or q[1][2] != i2:
            return None
        if not right(q[0]):
            return 'wrong' if other(right)(q[0]) else None
        return (name(q[1][1], right), t[2])
    q = K.position(t)
    if K.loose(t):
        return 'wrong'
    if q is not None and q[1][0] == 'ix':
        if not right(q[0]):
            return 'wrong' if other(right)(q[0]) else None
        return (name(q[1][1], right), q[1][2])
    return None


def kind(right):
    return right.__name__[2:]


def name(g, right):
    return kind(right) if right(g) else ('old' if kind(right) == 'new' else 'new')


def other(right):
    c = dict(zip(right.__code__.co_freevars, [x.cell_contents for x in right.__closure__ or ()]))
    return lambda t: t[0] == 'mem' and t[2] == 'group' and not right(t)


# ------------------------------------------------------------------ merging
def merge(p, rep):
    fns = [x for x in p.fns(FA + 'Factor::Factor') if x.get('body') and len(x['params']) == 1 and 'vector' in x['params'][0]['t']]
    if not fns:
        return rep.missing('merge')
    for fn in fns:
        evs = tree(p, rep, fn)
        src = ('p', 0, fn['params'][0]['n'])
        mine = group(S.mem(('this',), 'function_'))
        sets = [(k, n, ctx) for k, (n, ctx) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'set' and n.a['o'] == S.mem(('this',), 'function_')]
        if len(sets) != 1:
            rep.und('R5', (fn['file'], fn['l']), fn['q'] + ': images')
            continue
        k, n, ctx = sets[0]
        h = hof(ctx)
        if not h:
            rep.und('R5', n.at, fn['q'] + ': images')
            continue
        c0 = ('hp', 0, h[0][1].a['i'])
        rep.judge(True if n.a['args'][0] == c0 else None, 'R5', n.at, fn['q'] + ': stored at the combination it was computed for')
        used = []
        for j, (x, cx) in enumerate(evs[:k + 1]):
            if x.k == 'ev' and x.a['ek'] == 'call' and x.a['n'] in ('findTransformed', 'findImage'):
                used.append((j, x, cx))
        if not used:
            rep.und('R5', n.at, fn['q'] + ': images of the merged factors')
        lists = {}
        for j, x, cx in used:
            rep.judge(x.a['n'] == 'findTransformed', 'R5', x.at, fn['q'] + ': uses the images of the merged factors')
            if x.a['args'] != (c0,):
                rep.und('R5', x.at, fn['q'] + ': combination')
                continue
            L = over(evs, j, x, cx)
            if L is None:
                rep.und('R5', x.at, fn['q'] + ': merged factors')
                continue
            direct = x.a['o'][0] == 'mem' and x.a['o'][2] == 'function_'
            lists[L] = direct
            items = [B.Item(('ix', src, ('i', 0)), (), x.at)] if L == src else B.content(evs, L, j)
            if items is None:
                rep.und('R5', x.at, fn['q'] + ': merged factors')
                continue
            for it in items:
                eq = [c for c in Q.conds(it.ctx) if ordered(c, mine, src)]
                rest = [c for c in Q.conds(it.ctx) if c not in eq]
                if direct:
                    v = True if eq and eq[0][2] else False if not rest and L != src and it.v[0] == 'ix' else None
                    if v is None and rest and len(rest) == 1 and unordered(rest[0], mine):
                        v = False
                    if L == src:
                        v = False if not [c for c in Q.conds(cx) if ordered(c, mine, src)] else None
                    rep.judge(v, 'R5', x.at, fn['q'] + ': evaluated directly only with the same variables in the same order')
                else:
                    v = None
                    if it.v[0] in ('ctor', 'make') and len(it.v[2]) == 2:
                        f0, g0 = it.v[2]
                        v = True if g0 == mine and f0[0] == 'mem' and f0[1][0] == 'ix' and f0[1][1] == src else False if g0[0] == 'mem' and g0[2] == 'group' and S.has(g0, src) else None
                    rep.judge(v, 'R5', x.at, fn['q'] + ': looked up by variable in the group of the result')
        split(rep, fn, evs, k, src, mine, lists)
        outer = [c for c in Q.conds(ctx)]
        rep.judge(True if all(nonnull(c, n.a['args'][1]) for c in outer) else False if len(outer) == 1 and outer[0][1][0] == 'rel' and n.a['args'][1] in outer[0][1][2:] else None, 'R5', n.at, fn['q'] + ': all the non null products are stored')


def nonnull(c, v):
    t, pol = c[1], c[2]
    while t[0] == '!':
        t, pol = t[1], not pol
    return t[0] == 'rel' and t[1] == '==' and not pol and S.lit(0) in t[2:] and v in t[2:]


def over(evs, j, x, cx):
    """the list that the looked up element belongs to"""
    o = x.a['o']
    while o[0] in ('mem', 'deref') and o[0] == 'deref' or o[0] == 'mem' and o[2] == 'function_':
        o = o[1]
    if o[0] == 'ix':
        return o[1]
    if o[0] == 'phi':
        for y, c in reversed(evs[:j]):
            if y.k == 'ev' and y.a['ek'] == 'decl' and y.a.get('v') and y.a['v'][0] == 'begin' and y.a['lv'][1] == o[2]:
                return y.a['v'][1]
    return None


def ordered(c, mine, src):
    t, pol = c[1], c[2]
    while t[0] == '!':
        t, pol = t[1], not pol
    return t[0] == 'rel' and t[1] == '==' and mine in t[2:] and any(x[0] == 'mem' and x[2] == 'group' and x != mine for x in t[2:])


def unordered(c, mine):
    """compares the number of variables, or the variables regardless of their order"""
    t, pol = c[1], c[2]
    while t[0] == '!':
        t, pol = t[1], not pol
    if t[0] != 'rel' or t[1] != '==':
        return False
    return ('size', mine) in t[2:] or any(x[0] == 'mem' and x[2] == 'group_sorted' for x in t[2:])


def split(rep, fn, evs, k, src, mine, lists):
    """every factor ends in one of the lists"""
    if not lists or None in lists:
        return
    pushes = []
    for L in lists:
        if L == src:
            return
        items = B.content(evs, L, k)
        if items is None:
            return rep.und('R5', (fn['file'], fn['l']), fn['q'] + ': every factor takes part')
        pushes += items
    if not pushes:
        return
    ok = None
    if len(pushes) == 2:
        a, b = (x.ctx for x in pushes)
        la, lb = Q.loops(a), Q.loops(b)
        ca, cb = Q.conds(a), Q.conds(b)
        if len(la) == 1 and la == lb and la[0][1].a.get('C') == src:
            ok = None if la[0][2] else len(ca) == 1 and len(cb) == 1 and ca[0][1] == cb[0][1] and ca[0][2] != cb[0][2]
            if ok is False and not all(Q.arith_cond(c[1]) for c in ca[1:] + cb[1:]):
                ok = None
    rep.judge(ok, 'R5', (fn['file'], fn['l']), fn['q'] + ': every factor takes part')


# ------------------------------------------------------------------ messages of observed nodes
def observed(p, rep, m):
    f = m.f
    seen = 0
    todo = []
    for fn in list(p.funcs.values()):
        if not fn.get('body') or not fn['q'].startswith('EFG::strct') and not fn['q'].startswith('EFG::train'):
            continue
        hit = []

        def v(n):
            if n.get('k') in ('ctor', 'call') and 'EFG::factor::Evidence' in (n.get('t') or '') and (n['k'] == 'ctor' or 'make_' in (n.get('q') or '')):
                hit.append(n)
        P.walk([fn['body'], fn.get('inits')], v)
        if not hit:
            continue
        todo.append(fn)
        todo += [g for g in p.funcs.values() if g.get('body') and not fn.get('cls') and Q.calls(g, fn['c'])]
    for fn in todo:
        evs = tree(p, rep, fn, KEEP | {'findOrMakeNode'})
        for k, (n, ctx) in enumerate(evs):
            if n.k != 'ev' or n.a['ek'] != 'ctor' or n.a['cls'] != FA + 'Evidence' or len(n.a['args']) != 3:
                continue
            F, V, E = n.a['args']
            dst = [x for x, cx in evs[k:] if x.k == 'ev' and x.a['ek'] == 'set' and x.a['v'] == n.a['r']]
            if len(dst) != 1 or dst[0].a['lv'][0] != 'mem' or dst[0].a['lv'][2] != f['message']:
                continue
            seen += 1
            con = dst[0].a['lv'][1]
            if con[0] != 'val' or con[1][0] != 'mem' or con[1][2] not in (f['disabled'], f['active']):
                rep.und('R6', n.at, fn['q'] + ': message of an observed node')
                continue
            X, Y = con[1][1], con[2]
            yv, xv = S.mem(Y, 'variable'), S.mem(X, 'variable')
            same_node = {yv}
            if Y[0] == 'val':
                same_node.add(Y[2])
            rep.judge(True if V in same_node else False if V == xv or X[0] == 'val' and V == X[2] else None, 'R6', n.at, fn['q'] + ': the reduced variable is the observed one')
            F = F[1] if F[0] == 'deref' else F
            if F[0] == 'mem' and F[2] == f['cfactor']:
                b = F[1]
                ok = b == con or b == ('val', S.mem(Y, f['disabled']), X)
                rep.judge(True if ok else False if b[0] == 'val' and b[1][0] == 'mem' and b[1][2] == f['disabled'] and b[1][1] in (X, Y) and b[2] not in (X, Y) else None, 'R6', n.at, fn['q'] + ': the factor is the one of the connection')
            ev = leaves(E)
            vs = [True if w in same_node or w == V else False if w == xv else None for w in ev]
            at_ = located(E)
            if at_ and Y[0] == 'mem' and Y[1][0] == 'call':
                vs.append(True if Y[1] == at_ else False if X[0] == 'mem' and X[1] == at_ else None)
            rep.judge(Q.worst(vs) if vs else (True if E[0] == 'p' else None), 'R6', n.at, fn['q'] + ': the value is the one observed for that variable')
    if not seen:
        rep.missing('messages of observed nodes')


def located(E):
    """the location whose evidence is read"""
    if E[0] == 'mem' and E[2] == 'second' and E[1][0] == 'alt' and E[1][1][0] == 'mem' and E[1][1][1][0] == 'call':
        return E[1][1][1]
    return None


def leaves(E):
    """variables whose evidence is read"""
    if E[0] == 'cond':
        return leaves(E[2]) + leaves(E[3])
    if E[0] == 'val' and E[1][0] == 'mem' and E[1][2] == 'evidences':
        return [E[2]]
    return []


# ------------------------------------------------------------------ gradient of a binary factor
def gradient(p, rep, m):
    q = 'EFG::train::BinaryTuner'
    cs = [x for x in p.fns(q + '::BinaryTuner') if x.get('body') and len(x['params']) >= 3]
    fns = [x for x in p.fns(q + '::getGradientBeta') if x.get('body')]
    if not cs or not fns:
        return rep.missing('gradient of binary factors')
    place = {}
    for c in cs:
        t = S.Sym(p, keep=KEEP).build(c)
        rep.fn(c)
        mem = {}
        for n, ctx in Q.walk(t):
            if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'mem' and n.a['lv'][1] == ('this',):
                mem[n.a['v']] = n.a['lv'][2]
        for cond in throws(t):
            x, pol = cond, True
            while x[0] == '!':
                x, pol = x[1], not pol
            if x[0] != 'rel' or x[1] != '==' or pol:
                continue
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                k = 0 if a[0] == 'ix' and a[2] == S.lit(0) else 1 if a[0] == 'back' or a[0] == 'ix' and a[2] == S.lit(1) else None
                if k is not None and a[1][0] == 'mem' and a[1][2] == 'group' and b[0] == 'mem' and b[2] == 'variable' and b[1] in mem:
                    place[mem[b[1]]] = k
    for fn in fns:
        evs = tree(p, rep, fn)
        for k, (n, ctx) in enumerate(evs):
            if n.k != 'ev' or n.a['ek'] not in ('mut', 'set') or not n.a.get('v'):
                continue
            v = n.a['v']
            h = hof(ctx)
            if not h or not S.has(v, ('hp', 1, h[0][1].a['i'])):
                continue
            i = h[0][1].a['i']
            if n.a['ek'] == 'mut':
                rep.judge(h[3].startswith('true'), 'R7', n.at, fn['q'] + ': the joint probabilities use the actual images')
            for x in factors(v):
                if x[0] != 'ix' or x[2][0] != 'ix' or x[2][1] != ('hp', 0, i) or not S.is_num(x[2][2]):
                    continue
                node = owner(evs, k, x[1], m)
                if node is None or node not in place:
                    rep.und('R7', n.at, fn['q'] + ': distribution of a variable')
                    continue
                rep.judge(place[node] == x[2][2][1], 'R7', n.at, '%s: the distribution of the %s variable is read at its own value' % (fn['q'], 'first' if place[node] == 0 else 'second'))
    if not any(o[1] == 'R7' for o in rep.obl):
        rep.und('R7', (fns[0]['file'], fns[0]['l']), q + ': gradient')


def hidden(p, rep):
    """gradient of a factor between a hidden and an observed variable"""
    q = 'EFG::train::HiddenObservedTuner'
    cs = [x for x in p.fns(q + '::HiddenObservedTuner') if x.get('body') is not None and len(x['params']) >= 3]
    fns = [x for x in p.fns(q + '::getGradientBeta') if x.get('body')]
    if not cs or not fns:
        return rep.und('R7', ('', 0), 'gradient of a factor between a hidden and an observed variable')
    cf = cs[0]
    cevs = tree(p, rep, cf)
    par = {i: ('p', i, a['n']) for i, a in enumerate(cf['params'])}
    fac = [par[i] for i, a in enumerate(cf['params']) if 'FactorExponential' in (a.get('t') or '')]
    ev = [par[i] for i, a in enumerate(cf['params']) if 'terator' in (a.get('t') or '')]
    if len(fac) != 1 or len(ev) != 1:
        return rep.und('R7', (cf['file'], cf['l']), q)
    G = group(S.mem(fac[0], 'function_'))
    for fn in fns:
        evs = tree(p, rep, fn)
        for c in (0, 1):
            w = ' (observed variable in place %d)' % c
            case = K.Case(G, {S.mem(ev[0], 'first'): c}, aliases(cevs))
            val, bad = {}, False
            old = None
            for n, ctx in cevs:
                if n.k != 'ev' or n.a['ek'] != 'set' or n.a['lv'][0] != 'mem' or n.a['lv'][1] != ('this',):
                    continue
                lc = live(case, ctx)
                if lc is None:
                    continue
                x = n.a['v']
                src = old if n.a.get('swap') and old is not None else val
                r = src.get(x) if x in src else S.lit(case.num(x)) if case.num(x) is not None else None
                old = dict(val) if n.a.get('swap') and old is None else None
                if lc or Q.loops(ctx):
                    r = None
                val[n.a['lv']] = r
            env = {k: v for k, v in val.items() if v is not None}
            c2 = K.Case(('none',), {}, env)
            got = 0
            evd = S.mem(S.mem(('this',), next((n.a['lv'][2] for n, _ in cevs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['v'] == ev[0] and n.a['lv'][0] == 'mem'), 'evidence')), 'second')
            for k, (n, ctx) in enumerate(evs):
                if n.k != 'ev' or n.a['ek'] != 'call' or n.a['n'] not in ('findImage', 'findTransformed') or len(n.a['args']) != 1:
                    continue
                got += 1
                rep.judge(n.a['n'] == 'findImage', 'R7', n.at, fn['q'] + ': the gradient uses the raw images')
                src = comb(evs, k, n.a['args'][0], c2)
                if src is None or set(src) != {0, 1}:
                    rep.judge(False if src and len(src) == 1 and set(src) <= {0, 1} else None, 'R7', n.at, fn['q'] + ': each of the two values is at its own place' + w)
                    continue
                ok = src[c] == evd and src[1 - c][0] == 'i'
                rep.judge(True if ok else False if src[1 - c] == evd and src[c][0] == 'i' else None, 'R7', n.at, fn['q'] + ': the observed value and those of the hidden variable are each at their own place' + w)
                h = src[1 - c] if ok else None
                for n2, _ in evs[k:]:
                    if h and n2.k == 'ev' and n2.a['ek'] in ('setv', 'set') and S.has(n2.a['v'], n.a['r']):
                        ws = [x for x in S.all_t(n2.a['v'], lambda y: y[0] == 'ix' and y[1][0] in ('var', 'call'))]
                        rep.judge(True if any(x[2] == h for x in ws) else False if ws and all(Q.arith(x[2]) for x in ws) else None, 'R7', n2.at, fn['q'] + ': with the probability of that value' + w)
                        break
                L = Q.loop_of(ctx, h) if h else None
                if L:
                    rep.judge(Q.covers(L, lambda z: z[0] == 'size' or size_name(z)), 'R7', n.at, fn['q'] + ': for all the values of the hidden variable')
            if not got:
                rep.und('R7', (fn['file'], fn['l']), fn['q'] + ': images' + w)


def size_name(z):
    return z[0] == 'mem' and z[2] == 'size_'


def raw(p, rep):
    """gradients are made of raw images"""
    for q in ('EFG::train::BaseTuner::getGradientAlpha', 'EFG::train::BaseTuner::dotProduct'):
        for fn in p.fns(q):
            if not fn.get('body'):
                continue
            for n, ctx in tree(p, rep, fn):
                if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] in ('findImage', 'findTransformed'):
                    rep.judge(n.a['n'] == 'findImage', 'R7', n.at, fn['q'] + ': the gradient uses the raw images')
                h = hof(ctx)
                if h and h[1] == 'forEachCombination':
                    rep.judge(h[3].startswith('false'), 'R7', n.at, fn['q'] + ': the gradient uses the raw images')


def throws(n):
    out = []
    if n.k == 'seq':
        for x in n.a['s']:
            out += throws(x)
    elif n.k == 'scope':
        out += throws(n.a['b'])
    elif n.k == 'if':
        if Q.ends_flow(n.a['a'].a['s']) == 'throw':
            c = n.a['c']
            out += disj(c)
        out += throws(n.a['a']) + throws(n.a['b'])
    return out


def disj(c):
    return disj(c[1]) + disj(c[2]) if c[0] == '||' else [c]


def owner(evs, k, t, m, depth=0):
    """member node whose belief the term is"""
    if depth > 6:
        return None
    if t[0] == 'mem' and t[2] in ('first', 'second'):
        b = t[1]
        if b[0] == 'var':
            for n, c in reversed(evs[:k]):
                if n.k == 'ev' and n.a['ek'] == 'decl' and n.a['lv'] == b:
                    b = n.a.get('v')
                    break
        if b and b[0] == 'pair':
            return owner(evs, k, b[1] if t[2] == 'first' else b[2], m, depth + 1)
        return None
    if t[0] == 'var':
        for n, c in reversed(evs[:k]):
            if n.k == 'ev' and n.a['ek'] == 'decl' and n.a['lv'] == t:
                return owner(evs, k, n.a['v'], m, depth + 1) if n.a.get('v') else None
        return None
    if t[0] == 'call' and t[1] == 'getProbabilities':
        o = t[2]
        for j, (n, c) in enumerate(evs[:k]):
            if n.k == 'ev' and n.a['ek'] == 'ctor' and n.a['r'] == o and n.a['args']:
                items = B.content(evs, n.a['args'][0], j)
                if not items:
                    continue
                for it in items:
                    v = it.v
                    if v[0] == 'mem' and v[2] == m.f['merged'] and v[1][0] == 'mem' and v[1][1] == ('this',):
                        return v[1][2]
    return None
