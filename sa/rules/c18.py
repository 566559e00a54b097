"""A factor gives back the images it was given: the two storages, the position of a combination, the enumeration of the
combinations, the copies (shape of the position formula; resolution of the returned values by case; obligations per
enumeration instance)."""
import sym as S
import seqs as Q
import bags as B

FA, CA = 'EFG::factor::', 'EFG::categoric::'
DATA = S.mem(('this',), 'data_')
INFO = S.mem(('this',), 'info')
SZ = S.mem(INFO, 'sizes')
TOT = S.mem(INFO, 'totCombinations')
KEEP = {'operator()', 'transform', 'findImage', 'make_info', 'findTransformed'}


def run(p, rep):
    rep.rule('R1', 'the position of a combination in the dense storage is the rank of the combination when the last variable varies fastest')
    rep.rule('R2', 'setting an image stores exactly that image at that combination in both storages; changing storage moves every image to its position, over zeros')
    rep.rule('R3', 'reading an image returns the one stored at that combination, 0 when the sparse storage has none, and its transformation when asked')
    rep.rule('R4', 'the enumeration of a factor meets every combination with its own image, transformed if and only if asked')
    rep.rule('R5', 'the combinations of a group start from all zeros, advance by one with the last variable fastest, carry, and end after the last one')
    rep.rule('R6', 'the sizes of a factor are the ones of its variables, in their order, and the number of combinations is their product')
    rep.rule('R7', 'copies of factors hold the images of the origin (raw or transformed as asked) and its weight')
    rep.rule('R8', 'correlating factors have image 1 at the combinations of equal values and 0 elsewhere, anti correlating ones the opposite')
    rep.rule('R9', 'probabilities are all the actual images divided by their sum (uniform when it is null)')
    position(p, rep)
    setting(p, rep)
    reading(p, rep)
    enumeration(p, rep)
    nonnull(p, rep)
    advance(p, rep)
    sizes(p, rep)
    copies(p, rep)
    correlated(p, rep)
    probabilities(p, rep)


def tree(p, rep, fn, keep=KEEP):
    rep.fn(fn)
    return Q.walk(S.Sym(p, keep=keep).build(fn))


def fns(p, q):
    return [f for f in p.fns(q) if f.get('body')]


def par(fn, k):
    return ('p', k, fn['params'][k]['n'])


def at(fn):
    return (fn['file'], fn['l'])


def commut(t):
    """operands of + and * in one order"""
    if not isinstance(t, tuple):
        return t
    t = tuple(commut(x) for x in t)
    if t and t[0] in ('+', '*') and len(t) == 3:
        return (t[0],) + tuple(sorted(t[1:], key=repr))
    return t


def same(a, b):
    return commut(a) == commut(b)


def plain(t, atoms):
    """made of the given terms, numbers and arithmetic only"""
    if t in atoms or S.is_num(t):
        return True
    return t[0] in ('+', '-', '*', '/', '%') and all(plain(x, atoms) for x in t[1:])


# ------------------------------------------------------------------ position of a combination
def position(p, rep):
    fs = fns(p, FA + 'Function::CombinationHasher::operator()')
    if not fs:
        return rep.missing('position of a combination')
    for fn in fs:
        evs = tree(p, rep, fn)
        v, why = rank(fn, evs)
        rep.judge(v, 'R1', at(fn), 'the position of a combination is its rank, last variable fastest' + (' (%s)' % why if why and v is False else ''))


def rank(fn, evs):
    comb = par(fn, 0) if fn['params'] else None
    ls, sets, rets = [], [], []
    for n, ctx in evs:
        if n.k == 'ret':
            rets.append((n, ctx))
        for c in Q.loops(ctx):
            if c not in ls:
                ls.append(c)
        if n.k == 'ev' and n.a['ek'] == 'setv' and Q.loops(ctx):
            sets.append((n, ctx))
    if len(ls) != 1 or len(rets) != 1 or Q.conds(rets[0][1]) or any(Q.conds(c) for _, c in sets):
        return None, ''
    L = ls[0]
    t = rets[0][0].a['v'] if 'v' in rets[0][0].a else None
    if t is None or t[0] not in ('fold', 'out'):
        return None, ''
    i = L[1].a['i']
    combs = {x for n, c in sets for x in S.all_t(n.a['v'], lambda y: y[0] == 'ix' and y[1][0] in ('p', 'var') and y[1] != SZ and not S.has(y[1], ('this',)))}
    szs = {x for n, c in sets for x in S.all_t(n.a['v'], lambda y: y[0] == 'ix' and y[1] == SZ)}
    if len(combs) != 1 or len(szs) != 1:
        return None, ''
    c, s = combs.pop(), szs.pop()
    res = [n for n, x in sets if S.has(n.a['v'], c)]
    oth = [n for n, x in sets if not S.has(n.a['v'], c) and S.has(n.a['v'], s)]
    if len(res) != 1 or len(oth) > 1:
        return None, ''
    d = res[0].a['d']
    phs = S.all_t(res[0].a['v'], lambda y: y[0] == 'phi' and y[2] == d)
    if len(set(phs)) != 1:
        return None, ''
    ph = phs[0]
    if ph[3] != S.lit(0):
        return (False, 'it does not start from 0') if S.is_num(ph[3]) else (None, '')
    w = None
    if oth:
        ws = set(S.all_t(oth[0].a['v'], lambda y: y[0] == 'phi' and y[2] == oth[0].a['d']))
        if len(ws) != 1:
            return None, ''
        w = ws.pop()
    v = res[0].a['v']
    # direction
    asc = c[2] == i or Q.counter(evs, c[2], L) == i
    cov = Q.covers(L, lambda h: h in (('size', SZ), ('size', c[1])))
    desc = False
    if not asc:
        k = c[2]
        if k[0] == '-' and S.is_num(k[2]) and k[1][0] == 'phi' and k[1][3] in (('size', SZ), ('size', c[1])) and k[2] == S.lit(1):
            desc = True
        elif k[0] == 'phi' and k[3][0] == '-' and k[3][1] in (('size', SZ), ('size', c[1])) and k[3][2] == S.lit(1):
            desc = True
        elif same(k, ('-', ('-', ('size', SZ), S.lit(1)), i)):
            desc = cov
    if not asc and not desc:
        return None, ''
    if asc and cov is not True:
        return (False, 'not all the variables count') if cov is False else (None, '')
    if s[2] != c[2] and Q.counter(evs, s[2], L) != Q.counter(evs, c[2], L):
        if Q.arith(s[2]) or S.is_num(s[2]):
            return False, 'a value is weighted with the size of another variable'
        return None, ''
    if w is None:
        if same(v, ('+', ('*', ph, s), c)):
            return (True, '') if asc else (False, 'the first variable varies fastest')
    else:
        u = oth[0].a['v']
        if same(v, ('+', ph, ('*', c, ('/', w, s)))) and u == ('/', w, s):
            if w[3] == TOT:
                return (True, '') if asc else (None, '')
            return None, ''
        if same(v, ('+', ph, ('*', c, w))):
            if same(u, ('*', w, s)):
                if w[3] == S.lit(1):
                    return (True, '') if desc else (False, 'the first variable varies fastest')
                return (False, 'wrong first weight') if S.is_num(w[3]) else (None, '')
            if u == ('/', w, s) and w[3] == TOT:
                return False, 'the weight of a variable counts its own size'
    if plain(v, {ph, c, s, w}) and (not oth or plain(oth[0].a['v'], {w, s})):
        return False, 'another formula'
    return None, ''


# ------------------------------------------------------------------ cases of the storage
def sparse_t(t):
    return 'map<' in str(t) or str(t).endswith('map')


def case(c, store, known):
    """truth of a condition when the storage is sparse / dense; known: other conditions"""
    if c[0] == '!':
        v = case(c[1], store, known)
        return None if v is None else not v
    if c[0] in ('&&', '||'):
        a, b = case(c[1], store, known), case(c[2], store, known)
        if c[0] == '&&':
            return False if a is False or b is False else True if a and b else None
        return True if a or b else False if a is False and b is False else None
    if c[0] == 'isalt' and c[1] == DATA:
        return sparse_t(c[2]) == (store == 'sparse')
    if c[0] == 'rel' and c[1] == '==' and any(x[0] == 'index' and x[1] == DATA for x in c[2:4] if isinstance(x, tuple)):
        return None
    return known.get(c)


def conds(ctx):
    """conditions without negations"""
    out = []
    for c in Q.conds(ctx):
        t, pol = c[1], c[2]
        while t[0] == '!':
            t, pol = t[1], not pol
        out.append(('if', t, pol))
    return out


def live(ctx, store, known):
    """conditions left, None: excluded"""
    out = []
    for c in conds(ctx):
        v = case(c[1], store, known)
        if v is None:
            out.append(c)
        elif v != c[2]:
            return None
    return out


def pick(t, store, known):
    while t[0] == 'cond':
        v = case(t[1], store, known)
        if v is None:
            return t
        t = t[2] if v else t[3]
    return t


def sparse(t):
    return t[0] == 'alt' and t[1] == DATA and sparse_t(t[2])


def dense(t):
    return t[0] == 'alt' and t[1] == DATA and not sparse_t(t[2])


def ranked(t):
    """the combination whose position the term is"""
    if t[0] == 'call' and t[1] == 'operator()' and len(t[3]) == 1 and 'CombinationHasher' in str(t[2]):
        if any(S.has(t[2], x) for x in (INFO,)):
            return t[3][0]
    return None


# ------------------------------------------------------------------ set
def setting(p, rep):
    fs = fns(p, FA + 'Function::set')
    if not fs:
        return rep.missing('Function::set')
    for fn in fs:
        evs = tree(p, rep, fn)
        comb, img = [par(fn, 0), par(fn, 1)]
        # sparse
        ws = []
        erased = False
        lost = None
        conv = []
        for k, (n, ctx) in enumerate(evs):
            if n.k != 'ev':
                continue
            a = n.a
            l = live(ctx, 'sparse', {})
            if l is None:
                continue
            if a['ek'] == 'set' and a['lv'][0] == 'val' and sparse(a['lv'][1]):
                ws.append((k, n, l, a['lv'][2], a['v'], a['op'], Q.loops(ctx)))
            elif a['ek'] == 'mut' and sparse(a['C']) and a['op'] == 'insert':
                ws.append((k, n, l, a['key'], a['v'], '=' if a.get('assign') else 'emplace', Q.loops(ctx)))
            elif a['ek'] == 'mut' and sparse(a['C']) and a['op'] == 'erase' and a['key'] == comb and l and [(c[1], c[2]) for c in l] == [(S.rel('==', img, S.lit(0)), True)]:
                erased = True
            elif a['ek'] == 'mut' and sparse(a['C']) and a['op'] == 'erase' and a['key'] == comb and not any(S.has(c[1], img) for c in l) and ws and not conv:
                lost = k
            elif a['ek'] == 'set' and a['lv'] == DATA:
                conv.append((k, n, l, a['v']))
        v = None
        why = ''
        simple = [w for w in ws if not w[6]]
        if len(simple) == 1 and len(ws) == 1:
            v, why = write(simple[0], comb, img, erased)
        elif len(ws) == 2 and len(simple) == 2:
            # one when present, one when absent
            cs = [[(c[1], c[2]) for c in w[2]] for w in ws]
            if all(len(c) == 1 for c in cs) and cs[0][0][0] == cs[1][0][0] and cs[0][0][1] != cs[1][0][1] and all(w[3] == comb and w[4] == img for w in ws):
                v = True
        elif not ws and not conv:
            v = None
        if lost is not None and v is not False:
            later = any(x[1].a.get('C') is not None and sparse(x[1].a['C']) for n, c in evs[lost:] for x in Q.loops(c))
            v, why = (False, ': removed before the images are moved') if later else (None, '')
        rep.judge(v, 'R2', at(fn), 'sparse storage: the image is stored at its combination' + why)
        for k, n, l, val in conv:
            converted(rep, fn, evs, k, n, val, ws, comb)
        # dense
        ws = []
        for k, (n, ctx) in enumerate(evs):
            if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'ix' and dense(n.a['lv'][1]):
                l = live(ctx, 'dense', {})
                if l is not None:
                    ws.append((n, l, ctx))
        v, why = None, ''
        if len(ws) == 1 and not Q.loops(ws[0][2]):
            n, l, ctx = ws[0]
            ix = ranked(n.a['lv'][2])
            if ix is not None and ix != comb:
                v, why = False, ': at the position of another one'
            elif ix == comb:
                if n.a['op'] not in ('=', '=='):
                    v, why = False, ': the new image is combined with the old one'
                elif n.a['v'] != img:
                    v, why = (False, ': not the image that was given') if wrong(n.a['v'], img) else (None, '')
                elif l:
                    v, why = (False, ': only in some cases') if all(about(c[1], img) for c in l) else (None, '')
                else:
                    v = True
        rep.judge(v, 'R2', ws[0][0].at if ws else at(fn), 'dense storage: the image is stored at the position of its combination' + why)


def about(c, img):
    """a condition on the image and numbers only"""
    if c[0] == '!':
        return about(c[1], img)
    if c[0] in ('&&', '||'):
        return about(c[1], img) and about(c[2], img)
    return c[0] == 'rel' and all(x == img or S.is_num(x) for x in c[2:4])


def holds(c, img, x):
    """truth of a condition on the image, when its value is x"""
    if c[0] == '!':
        return not holds(c[1], img, x)
    if c[0] == '&&':
        return holds(c[1], img, x) and holds(c[2], img, x)
    if c[0] == '||':
        return holds(c[1], img, x) or holds(c[2], img, x)
    a, b = (x if y == img else y[1] for y in c[2:4])
    return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b}[c[1]]


POSITIVE = (1e-30, 1e-9, 1e-4, 0.5, 1.0, 7.0, 1e9)


def passes(cs, img):
    """the conditions hold for every image but null ones: True; False: some image is left out; None: not understood"""
    if not all(about(c[1], img) for c in cs):
        return None
    return all(holds(c[1], img, x) == c[2] for c in cs for x in POSITIVE)


def wrong(v, img):
    return S.is_num(v) or v[0] in ('+', '-', '*', '/', 'max', 'min') and S.has(v, img)


def write(w, comb, img, erased):
    k, n, l, key, v, op, ls = w
    if key != comb:
        return None, ''
    if v != img:
        return (False, ': not the image that was given') if v is not None and wrong(v, img) else (None, '')
    if op == 'emplace':
        return False, ': an image already there is kept'
    if op not in ('=', '=='):
        return False, ': the new image is combined with the old one'
    if l:
        if erased and [(c[1], c[2]) for c in l] == [(S.rel('==', img, S.lit(0)), False)]:
            return True, ''
        return (False, ': only in some cases') if all(about(c[1], img) for c in l) else (None, '')
    return True, ''


def fresh(v):
    """(length, value) of a list made of equal values"""
    if v == ('list',) or v is not None and v[0] == 'ctor' and not v[2]:
        return (S.lit(0), None)
    if v is not None and v[0] == 'ctor' and 'vector' in str(v[1]):
        x = [y for y in v[2] if not (y[0] == 'ctor' and 'allocator' in str(y[1]))]
        if len(x) == 1 and x[0][0] != 'p' or len(x) == 1 and x[0] == TOT:
            return (x[0], S.lit(0))
        if len(x) == 2:
            return (x[0], x[1])
    return None


def uniform(evs, upto, V):
    """(length, value, events that change single elements) of a list of equal values, None: not understood"""
    st, single = None, []
    for k, (n, ctx) in enumerate(evs[:upto]):
        if n.k != 'ev':
            continue
        a = n.a
        if a['ek'] == 'decl' and a['lv'] == V:
            st = fresh(a.get('v') or ('list',))
            base = ctx
            single = []
            if st is None:
                return None
        elif st is None:
            continue
        elif a['ek'] == 'mut' and a['C'] == V:
            r = B.rel(ctx, base)
            if a['op'] == 'resize' and not r:
                if st[0] == S.lit(0) or st[0] == a['key']:
                    st = (a['key'], a.get('v') or S.lit(0))
                else:
                    return None
            elif a['op'] == 'reserve':
                pass
            elif a['op'] == 'assign' and not r:
                return None
            elif a['op'] == 'push' and len(r) == 1 and r[0][0] == 'loop' and not r[0][2] and r[0][1].a['lo'] == S.lit(0) and r[0][1].a['step'] in (1, S.lit(1)) and r[0][1].a['hi'] is not None and r[0][1].a['lk'] != 'hof' and st[0] == S.lit(0) and not S.has(a['v'], r[0][1].a['i']):
                st = (r[0][1].a['hi'], a['v'])
            else:
                return None
        elif a['ek'] == 'set' and a['lv'][0] == 'ix' and a['lv'][1] == V:
            r = B.rel(ctx, base)
            i = a['lv'][2]
            L = Q.loop_of(ctx, i)
            if L is not None and len(r) == 1 and Q.covers(L, lambda h: h == ('size', V) or h == st[0]) is True and a['op'] in ('=', '==') and S.is_num(a['v']):
                st = (st[0], a['v'])
            else:
                single.append((k, n, ctx, r))
        elif a['ek'] == 'set' and a['lv'] == V:
            return None
        elif a['ek'] == 'opq':
            return None
    return None if st is None else (st[0], st[1], single)


def converted(rep, fn, evs, k, n, val, ws, comb):
    val = B.strip(val)
    if val[0] == 'vari':
        val = B.strip(val[2])
    if any(w[0] > k for w in ws):
        rep.judge(False, 'R2', n.at, 'change of storage: the image is stored before the images are moved')
    u = uniform(evs, k, val) if val[0] == 'var' else None
    if u is None:
        rep.und('R2', n.at, 'change of storage')
        return
    length, v0, single = u
    vs = []
    vs.append((True if length == TOT else False if length[0] == 'size' and sparse(length[1]) or S.is_num(length) else None, ': the dense storage has a place for each combination'))
    vs.append((True if v0 == S.lit(0) else False if v0 is not None and S.is_num(v0) else None, ': images never set are 0'))
    ok, why = None, ': every image moves to its own position'
    if len(single) == 1:
        kk, m, ctx, r = single[0]
        ls = Q.loops(r)
        if len(ls) == 1 and ls[0][1].a.get('C') is not None and sparse(ls[0][1].a['C']):
            L = ls[0]
            key = ('key', L[1].a['C'], L[1].a['i'])
            ix = ranked(m.a['lv'][2])
            x = m.a['v']
            cs = [c for c in conds(r)]
            if L[2]:
                ok = None
            elif ix is None or x[0] != 'val' and x[0] != 'p' and not S.is_num(x):
                ok = None
            elif ix != key:
                ok = False if ix == comb else None
            elif x != ('val', L[1].a['C'], key):
                ok = False if x[0] == 'p' or S.is_num(x) else None
            elif cs:
                cs = [c for c in cs if not inside(c, key, val)]
                ok = passes(cs, ('val', L[1].a['C'], key))
                if ok is None and all(places(c[1], key, val) for c in cs):
                    ok = False
            elif m.a['op'] not in ('=', '=='):
                ok = None
            else:
                ok = True
    elif not single:
        ok = None
    vs.append((ok, why))
    for v, w in vs:
        rep.judge(v, 'R2', n.at, 'change of storage' + w)


def inside(c, key, V):
    """the position is in the storage: always so"""
    return c[1][0] == 'rel' and c[1][1] == '<' and c[2] and ranked(c[1][2]) == key and c[1][3] in (TOT, ('size', V))


def places(c, key, V):
    """a condition on the position of the image"""
    if c[0] == '!':
        return places(c[1], key, V)
    ar = lambda t: S.is_num(t) or t in (TOT, ('size', V)) or ranked(t) == key or t[0] in ('+', '-', '*', '/', '%') and all(ar(x) for x in t[1:] if isinstance(x, tuple))
    return c[0] == 'rel' and ar(c[2]) and ar(c[3]) and any(S.any_t(x, lambda y: ranked(y) == key) for x in c[2:4])


# ------------------------------------------------------------------ reading
def outcome(evs, store, known):
    """the values returned in a case: [(term, conditions left)]"""
    out = []
    for n, ctx in evs:
        if n.k == 'ret':
            l = live(ctx, store, known)
            if l is None:
                continue
            v = n.a.get('v')
            if v is None:
                return None
            out.append((pick(v, store, known), l))
    return out


def reading(p, rep):
    fs = fns(p, FA + 'Function::findImage')
    if not fs:
        return rep.missing('Function::findImage')
    for fn in fs:
        evs = tree(p, rep, fn, KEEP - {'findImage'})
        comb = par(fn, 0)
        sp = None
        for n, ctx in evs:
            for t in [x for x in n.a.values() if isinstance(x, tuple)] + [c[1] for c in conds(ctx)]:
                for x in S.all_t(t, lambda y: y[0] == 'alt' and sparse(y)):
                    sp = x
        if sp is None:
            rep.und('R3', at(fn), 'reading an image')
            continue
        there = S.isin(sp, comb)
        for store, known, want, text in (('sparse', {there: True}, ('val', sp, comb), 'an image of the sparse storage'), ('sparse', {there: False}, S.lit(0), 'a combination without image is null'), ('dense', {}, None, 'an image of the dense storage')):
            o = outcome(evs, store, known)
            v = None
            if o and len(o) > 1 and want is not None and want[0] == 'val' and all(about(c[1], want) for _, l in o for c in l):
                v = Q.worst([True if x == want else x == S.lit(0) and null(want, [(c[1], c[2]) for c in l]) if S.is_num(x) else None for x, l in o])
            elif o and len(o) == 1 and not o[0][1]:
                t = o[0][0]
                if t[0] == 'cond' and want is not None and want[0] == 'val':
                    v = altered(t, want)
                elif want is not None:
                    v = True if t == want else False if S.is_num(t) or t[0] == 'val' and sparse(t[1]) else None
                elif t[0] == 'ix' and dense(t[1]):
                    r = ranked(t[2])
                    v = True if r == comb else False if t[2][0] in ('+', '-', '*', '/', '%') and any(ranked(x) for x in S.all_t(t[2], lambda y: y[0] == 'call')) else None
                elif S.is_num(t):
                    v = False
            rep.judge(v, 'R3', at(fn), text)
    fs = fns(p, FA + 'Function::findTransformed')
    for fn in fs:
        evs = tree(p, rep, fn)
        comb = par(fn, 0)
        raw = ('call', 'findImage', ('this',), (comb,))
        good = ('call', 'transform', ('this',), (raw,))
        rs = [n.a.get('v') for n, ctx in evs if n.k == 'ret']
        lv = [y for x in rs if x for y in leaves(x)]
        vs = [True if call_like(y, good) else False if S.is_num(y) or call_like(y, raw) else None for y in lv]
        rep.judge(Q.worst(vs) if vs else None, 'R3', at(fn), 'a transformed image is the transformation of the image of that combination')
    if not fs:
        rep.missing('Function::findTransformed')


def leaves(t):
    return leaves(t[2]) + leaves(t[3]) if t[0] == 'cond' else [t]


def branches(t, cs=()):
    """[(leaf, [(condition, truth)])]"""
    cs = list(cs)
    if t[0] == 'cond':
        c, pol = t[1], True
        while c[0] == '!':
            c, pol = c[1], not pol
        return branches(t[2], cs + [(c, pol)]) + branches(t[3], cs + [(c, not pol)])
    return [(t, cs)]


def altered(t, want):
    """an image that depends on a comparison of the image itself with a constant"""
    vs = []

    def said(c):
        if c[0] == '!':
            return said(c[1])
        if c[0] in ('&&', '||'):
            return said(c[1]) and said(c[2])
        return about(c, want) or c == S.isin(want[1], want[2])
    for x, cs in branches(t):
        if not all(said(c) for c, _ in cs):
            return None
        vs.append(True if x == want else x == S.lit(0) and null(want, cs) if S.is_num(x) else False if plain(x, {want}) else None)
    return Q.worst(vs)


def null(x, cs):
    """do the conditions say that x is 0"""
    for c, pol in cs:
        if c == S.rel('==', x, S.lit(0)) and pol or c == S.rel('!=', x, S.lit(0)) and not pol:
            return True
    return False


def expo(t, cs, W, x):
    if t[0] == 'call' and str(t[1]).split('::')[-1] in ('expf', 'exp') and len(t[3]) == 1:
        a = t[3][0]
        return True if same(a, ('*', W, x)) else False if plain(a, {W, x}) else None
    if S.is_num(t):
        return t[1] == 1 and (null(x, cs) or null(W, cs))
    if plain(t, {W, x}):
        return False
    return None


def call_like(a, b):
    """same call, whatever its identity"""
    if a == b:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b or a[0] != b[0]:
        return False
    if a[0] == 'call':
        return a[1] == b[1] and call_like(a[2], b[2]) and len(a[3]) == len(b[3]) and all(call_like(x, y) for x, y in zip(a[3], b[3]))
    return False


# ------------------------------------------------------------------ enumeration
def flag(fn):
    t = str(fn.get('ta') or '').split(';')[0].strip()
    return True if t == 'true' else False if t == 'false' else None


def raw_of(t, fl):
    """image before the transformation; ok: transformed as asked"""
    if t[0] == 'call' and t[1] == 'transform' and len(t[3]) == 1:
        return t[3][0], fl is True
    if t[0] == 'call' and t[1] == 'findTransformed':
        return t, fl is True
    if t[0] == 'call' and t[1] == 'findImage':
        return t, fl is False
    return t, fl is False


def range_ok(evs, t):
    """does the range enumerate the combinations of this factor"""
    t = B.strip(t)
    if t[0] == 'var':
        for n, c in evs:
            if n.k == 'ev' and n.a['ek'] == 'decl' and n.a['lv'] == t:
                t = n.a.get('v')
                break
    if t and t[0] == 'ctor' and str(t[1]).endswith('GroupRange') and len(t[2]) == 1:
        x = t[2][0]
        if x in (SZ, S.mem(('this',), 'variables_')):
            return True
    return None


def image(evs, v, i, store, L, ctx):
    """is v the image of the combination of this iteration"""
    cmb = ('hp', 0, i)
    if v[0] == 'call' and v[1] in ('findImage', 'findTransformed'):
        return True if v[3] == (cmb,) and v[2] == ('this',) else None
    if store == 'sparse':
        sps = [x for x in S.all_t(v, lambda y: y[0] == 'alt' and sparse(y))]
        if not sps:
            return False if S.is_num(v) else None
        there = S.isin(sps[0], cmb)
        a, b = pick(v, store, {there: True}), pick(v, store, {there: False})
        if a == ('val', sps[0], cmb) and b == S.lit(0):
            return True
        if S.is_num(a) or S.is_num(b) and b != S.lit(0):
            return False
        return None
    x = v[1] if v[0] == 'deref' else v
    if v[0] == 'deref' and x[0] == 'phi' and x[3][0] == 'begin' and dense(x[3][1]):
        return step(evs, x, L)
    if v[0] == 'ix' and dense(v[1]):
        if ranked(v[2]) == cmb:
            return True
        k = v[2]
        if k[0] == 'phi':
            if k[3] != S.lit(0):
                return False if S.is_num(k[3]) else None
            return step(evs, k, L)
        if k == i:
            return True
    return None


def step(evs, x, L):
    """advances by one at each iteration, whatever the conditions"""
    ss = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'setv' and n.a['d'] == x[2] and L in c]
    if not ss:
        return False
    if len(ss) > 1:
        return None
    n, c = ss[0]
    r = c[c.index(L) + 1:]
    if Q.loops(r):
        return None
    if conds(r):
        return False
    if n.a['v'] == ('+', x, S.lit(1)):
        return True
    return False if n.a['v'][0] in ('+', '-') and S.is_num(n.a['v'][2]) else None


def enumeration(p, rep):
    fs = fns(p, FA + 'Function::forEachCombination')
    if not fs:
        return rep.missing('enumeration of a factor')
    for fn in fs:
        evs = tree(p, rep, fn)
        fl = flag(fn)
        pred = par(fn, 0)
        for store in ('sparse', 'dense'):
            vs, why, loc = visits(evs, store, pred, fl, False)
            rep.judge(vs, 'R4', loc or at(fn), 'enumeration, %s storage: each combination meets its own image%s' % (store, why))


def nonnull(p, rep):
    for fn in fns(p, FA + 'Function::forEachNonNullCombination'):
        evs = tree(p, rep, fn)
        fl = flag(fn)
        pred = par(fn, 0)
        for store in ('sparse', 'dense'):
            vs, why, loc = visits(evs, store, pred, fl, True)
            rep.judge(vs, 'R4', loc or at(fn), 'enumeration of the non null images, %s storage: each combination meets its own image%s' % (store, why))


def visits(evs, store, pred, fl, skip):
    cs = []
    for k, (n, ctx) in enumerate(evs):
        if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'operator()' and n.a.get('o') == pred:
            l = live(ctx, store, {})
            if l is not None:
                cs.append((k, n, ctx, l))
    if len(cs) != 1:
        return None, '', None
    k, n, ctx, l = cs[0]
    ls = Q.loops(ctx)
    if len(ls) != 1 or len(n.a['args']) != 2 or ls[0][2]:
        # leaving the enumeration early
        return None, '', n.at
    L = ls[0]
    i = L[1].a['i']
    X, V = n.a['args']
    if V[0] == 'cond' and fl is True:
        bs = [x for x, _ in branches(V)]
        if all(x[0] == 'call' and x[1] == 'transform' and len(x[3]) == 1 for x in bs):
            V = ('call', 'transform', bs[0][2], (untransformed(V),))
        elif any(x[0] == 'call' and x[1] in ('transform', 'findTransformed') for x in bs) and any(S.is_num(x) or x[0] in ('val', 'deref') for x in bs):
            return False, ': some images are not transformed', n.at
    raw, ok = raw_of(V, fl)
    if L[1].a['lk'] == 'hof':
        C = L[1].a['C']
        if C[1] != 'for_each_combination' or not C[3] or range_ok(evs, C[3][0]) is not True:
            return None, '', n.at
        if X != ('hp', 0, i):
            return None, '', n.at
        v = image(evs, raw, i, store, L, ctx)
        inner = live(ctx[ctx.index(L):], store, {})
        if live(ctx[:ctx.index(L)], store, {}):
            return None, '', n.at
        if inner:
            zero = [c for c in inner if c[1] == S.rel('==', raw, S.lit(0)) and c[2] is False]
            if skip and len(zero) == len(inner):
                pass
            elif v is not None and all(understood(c[1], raw) for c in inner):
                return False, ': some combinations are skipped', n.at
            else:
                return None, '', n.at
        if v is True and not ok:
            return (False if fl is not None else None), ': the images are%s transformed' % ('' if fl is False else ' not'), n.at
        return v, '', n.at
    if store == 'sparse' and skip and L[1].a['lk'] == 'each' and sparse(L[1].a['C']):
        key = ('key', L[1].a['C'], i)
        val = ('val', L[1].a['C'], key)
        if X != key:
            return None, '', n.at
        if l and not all(c[1] == S.rel('==', val, S.lit(0)) and c[2] is False for c in l):
            return (False if all(about(c[1], val) for c in l) else None), ': some combinations are skipped', n.at
        if raw != val:
            return (False if S.is_num(raw) else None), '', n.at
        if not ok:
            return (False if fl is not None else None), ': the images are%s transformed' % ('' if fl is False else ' not'), n.at
        return True, '', n.at
    return None, '', n.at


def untransformed(t):
    return ('cond', t[1], untransformed(t[2]), untransformed(t[3])) if t[0] == 'cond' else t[3][0]


def understood(c, raw):
    if c[0] == '!':
        return understood(c[1], raw)
    if c[0] in ('&&', '||'):
        return understood(c[1], raw) and understood(c[2], raw)
    if c[0] == 'in':
        return True
    if c[0] == 'rel':
        ok = lambda x: x == raw or S.is_num(x) or x[0] in ('deref', 'val', 'find', 'end', 'cond') or x[0] == 'ix' and x[1][0] == 'hp'
        return all(ok(x) for x in c[2:4])
    return False


# ------------------------------------------------------------------ combinations of a group
def advance(p, rep):
    fs = fns(p, CA + 'GroupRange::operator++')
    if not fs:
        rep.missing('GroupRange::operator++')
    D = S.mem(('this',), 'data')
    CO, SS = S.mem(D, 'combination'), S.mem(D, 'sizes')
    for fn in fs:
        evs = tree(p, rep, fn)
        incs, zeros, resets = [], [], []
        for k, (n, ctx) in enumerate(evs):
            if n.k != 'ev':
                continue
            a = n.a
            if a['ek'] == 'set' and a['lv'][0] == 'ix' and a['lv'][1] == CO:
                if a['op'] == '+' and a['v'] == S.lit(1) or a['op'] in ('=', '==') and a['v'] == ('+', a['lv'], S.lit(1)):
                    incs.append((k, n, ctx))
                else:
                    zeros.append((k, n, ctx))
            elif a['ek'] == 'set' and a['lv'] == D:
                resets.append((k, n, ctx))
        if len(incs) != 1 or len(Q.loops(incs[0][2])) != 1:
            rep.und('R5', at(fn), 'next combination')
            continue
        k0, n0, c0 = incs[0]
        L = Q.loops(c0)[0]
        X = n0.a['lv'][2]
        ph = X[1] if X[0] == '-' and X[1][0] == 'phi' and X[2] == S.lit(1) else X
        sizes_ = (('size', CO), ('size', SS))
        # first
        v = None
        if ph[0] == 'phi':
            st = ph[3]
            if ph is X:
                v = True if st[0] == '-' and st[1] in sizes_ and st[2] == S.lit(1) else False if S.is_num(st) or st[0] == '-' and st[1] in sizes_ and S.is_num(st[2]) else None
            else:
                v = True if st in sizes_ else False if st[0] == '-' and st[1] in sizes_ else None
        elif X == L[1].a['i']:
            v = False if L[1].a['lo'] == S.lit(0) and L[1].a['step'] in (1, S.lit(1)) else None
        elif Q.arith(X) and same(X, ('-', ('-', ('size', CO), S.lit(1)), L[1].a['i'])) or same(X, ('-', ('-', ('size', SS), S.lit(1)), L[1].a['i'])):
            v = True
        rep.judge(v, 'R5', n0.at, 'the last variable is advanced first')
        # the limit
        lim = []
        for n, ctx in evs:
            for c in conds(ctx):
                if L in ctx:
                    lim += [x for x in S.all_t(c[1], lambda y: y[0] == 'rel') if n0.a['lv'] in x[2:4]]
        lim = list(dict.fromkeys(lim))
        v = None
        if lim:
            vs = []
            for x in lim:
                o = x[3] if x[2] == n0.a['lv'] else x[2]
                if o == ('ix', SS, X):
                    if x[1] == '==' or x[1] == '<' and x[2] == n0.a['lv'] or x[1] == '<=' and x[3] == n0.a['lv']:
                        vs.append(True)
                    else:
                        vs.append(False)
                elif o[0] == 'ix' and o[1] == SS:
                    vs.append(False if S.is_num(o[2]) or o[2][0] in ('+', '-') and o[2][1] == ph or o[2] == ph else None)
                elif o[0] in ('-', '+') and o[1] == ('ix', SS, X) and S.is_num(o[2]):
                    vs.append(False)
                else:
                    vs.append(None)
            v = Q.worst(vs)
        rep.judge(v, 'R5', n0.at, 'a value goes up to the size of its own variable')
        # the carry
        v = None
        inl = [z for z in zeros if L in z[2]]
        if len(inl) == 1 and len(zeros) == 1:
            k1, n1, c1 = inl[0]
            v = True
            if n1.a['v'] != S.lit(0) or n1.a['op'] not in ('=', '=='):
                v = False if n1.a['op'] in ('=', '==') and any(S.is_num(y) and y != S.lit(0) for y in leaves(n1.a['v'])) else False if S.is_num(n1.a['v']) else None
            elif n1.a['lv'][2] != X:
                v = False if S.any_t(n1.a['lv'][2], lambda y: y == ph) and n1.a['lv'][2][0] in ('+', '-', 'phi') else None
        elif not zeros:
            v = False if resets else None
        rep.judge(v, 'R5', inl[0][1].at if inl else at(fn), 'a value that reaches its size starts again from 0')
        # the previous variable
        if ph[0] == 'phi':
            ss = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'setv' and n.a['d'] == ph[2] and L in c]
            v = None
            if len(ss) == 1:
                u = ss[0][0].a['v']
                v = True if u == ('-', ph, S.lit(1)) else False if S.is_num(u) or plain(u, {ph}) else None
            rep.judge(v, 'R5', ss[0][0].at if ss else at(fn), 'the carry goes to the variable before')
        # the end
        v = None
        ends = [r for r in resets if r[1].a['v'] == ('nullopt',) or 'nullopt' in str(r[1].a['v'])]
        if len(ends) == 1:
            cs = [c for c in conds(ends[0][2]) if S.has(c[1], ph) and not S.has(c[1], n0.a['lv'])]
            if L in ends[0][2]:
                if len(cs) == 1 and ph is X:
                    c, pol = cs[0][1], cs[0][2]
                    while c[0] == '!':
                        c, pol = c[1], not pol
                    if c[0] == 'rel' and any(S.is_num(y) for y in c[2:4]) and ph in c[2:4]:
                        num = [y for y in c[2:4] if S.is_num(y)][0]
                        ok = c[1] == '==' and num == S.lit(0) and pol or c[1] == '<' and c[2] == ph and num == S.lit(1) and pol or c[1] == '<' and c[3] == ph and num == S.lit(0) and not pol or c[1] == '<=' and c[2] == ph and num == S.lit(0) and pol
                        v = bool(ok)
            else:
                v = True if not conds(ends[0][2]) or all(c[1][0] in ('isset', '!') for c in conds(ends[0][2])) else None
        elif not resets:
            v = None
        rep.judge(v, 'R5', ends[0][1].at if ends else at(fn), 'the enumeration ends when the first variable overflows')
    # start
    for fn in fns(p, CA + 'GroupRange::Data::Data'):
        if len(fn['params']) < 2:
            continue
        evs = tree(p, rep, fn)
        me = S.mem(('this',), 'combination')
        v, seen = True, False
        length = None
        for n, ctx in evs:
            if n.k != 'ev':
                continue
            a = n.a
            if a['ek'] == 'set' and a['lv'] == me:
                f = fresh(a['v'])
                if f is None:
                    v = None
                    break
                length = f[0]
                if f[1] is not None and f[1] != S.lit(0):
                    v = False if S.is_num(f[1]) else None
                    break
            elif a['ek'] == 'mut' and a['C'] == me:
                if a['op'] == 'resize':
                    length = a['key']
                    if a.get('v') not in (None, S.lit(0)):
                        v = False if S.is_num(a['v']) else None
                        break
                elif a['op'] == 'assign':
                    v = None
                    break
                elif a['op'] == 'push':
                    if a['v'] != S.lit(0):
                        v = False if S.is_num(a['v']) else None
                        break
                    length = ('size', SS)
                elif a['op'] != 'reserve':
                    v = None
                    break
            elif a['ek'] == 'set' and a['lv'][0] == 'ix' and a['lv'][1] == me:
                if a['v'] != S.lit(0):
                    v = False if S.is_num(a['v']) else None
                    break
        if v is True and length is None:
            v = None
        rep.judge(v, 'R5', at(fn), 'the first combination is made of zeros')
    # copies of a range
    for fn in fns(p, CA + 'GroupRange::GroupRange'):
        if len(fn['params']) != 1 or 'GroupRange' not in str(fn['params'][0].get('t')):
            continue
        if fn.get('implicit'):
            continue
        evs = tree(p, rep, fn)
        o = par(fn, 0)
        od = S.mem(o, 'data')
        emp = [n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'] == D and n.a['v'] != ('nullopt',) and 'nullopt' not in str(n.a['v'])]
        cp = [n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'] == CO]
        v = None
        if any(n.a['v'] == od for n in emp):
            v = True
        elif len(emp) == 1 and emp[0].a.get('emplace'):
            if emp[0].a.get('args') == (od,):
                v = True
            elif len(cp) == 1 and cp[0].a['v'] == S.mem(od, 'combination'):
                v = True
            elif not cp and S.mem(od, 'combination') not in emp[0].a.get('args', ()):
                v = False
        rep.judge(v, 'R5', at(fn), 'the copy of a range points to the same combination')
    for fn in fns(p, CA + 'GroupRange::Data::operator=='):
        evs = tree(p, rep, fn)
        rs = [n.a.get('v') for n, c in evs if n.k == 'ret']
        me, he = S.mem(('this',), 'combination'), S.mem(par(fn, 0), 'combination')
        v = None
        if len(rs) == 1 and rs[0]:
            v = True if S.has(rs[0], S.rel('==', me, he)) else False if not S.has(rs[0], me) and not S.any_t(rs[0], lambda y: y[0] == 'call') else None
        rep.judge(v, 'R5', at(fn), 'ranges at different combinations differ')
    # for_each_combination
    fs = fns(p, CA + 'for_each_combination')
    if not fs:
        rep.missing('for_each_combination')
    for fn in fs:
        evs = tree(p, rep, fn)
        r, pr = [par(fn, 0), par(fn, 1)]
        cs = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'operator()' and n.a.get('o') == pr]
        v, why = None, ''
        if len(cs) == 1 and len(Q.loops(cs[0][1])) == 1:
            n, ctx = cs[0]
            L = Q.loops(ctx)[0]
            X = n.a['args'][0] if n.a['args'] else None
            if L[2]:
                v, why = None, ''
            elif L[1].a['lk'] == 'count' and L[1].a['lo'] == r and L[1].a['hi'] is not None and 'RANGE_END' in str(L[1].a['hi']) and L[1].a['step'] in (1, S.lit(1)):
                if conds(ctx):
                    v, why = None, ''
                elif X is not None and S.has(X, L[1].a['i']):
                    v = True
        rep.judge(v, 'R5', at(fn), 'each combination of the range is visited once')


# ------------------------------------------------------------------ sizes
def sizes(p, rep):
    fs = fns(p, FA + 'make_info')
    if not fs:
        return rep.missing('make_info')
    for fn in fs:
        evs = tree(p, rep, fn, KEEP - {'make_info'})
        vs = par(fn, 0)
        pushes = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['C'][0] == 'mem' and n.a['C'][2] == 'sizes']
        v = None
        if len(pushes) == 1 and pushes[0][0].a['op'] == 'push':
            n, c = pushes[0]
            ls = Q.loops(c)
            if len(ls) == 1 and not conds(c):
                g = S.mem(vs, 'group')
                cov = Q.covers(ls[0], lambda h: h == ('size', g))
                x = n.a['v']
                if cov is False:
                    v = False
                elif cov and x == S.mem(('ix', g, ls[0][1].a['i']), 'size_'):
                    v = False if n.a.get('front') else True
                elif cov and x[0] == 'mem' and x[2] == 'size_' and x[1][0] == 'ix' and x[1][1] == g and Q.arith(x[1][2]):
                    v = False
        rep.judge(v, 'R6', pushes[0][0].at if pushes else at(fn), 'the sizes are the ones of the variables, in order')
        st = [n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'mem' and n.a['lv'][2] == 'totCombinations']
        v = None
        if len(st) == 1:
            v = product(st[0].a['v'], S.mem(st[0].a['lv'][1], 'sizes'), S.mem(vs, 'group'))
        rep.judge(v, 'R6', st[0].at if st else at(fn), 'the number of combinations is the product of the sizes')
    for fn in fns(p, CA + 'GroupRange::GroupRange'):
        if len(fn['params']) != 1 or 'Group &' not in str(fn['params'][0].get('t')) and not str(fn['params'][0].get('t')).endswith('Group'):
            continue
        if 'GroupRange' in str(fn['params'][0].get('t')):
            continue
        evs = tree(p, rep, fn)
        g = S.mem(par(fn, 0), 'group')
        emp = [(k, n) for k, (n, c) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'set' and n.a.get('emplace')]
        v = None
        if len(emp) == 1 and emp[0][1].a.get('args'):
            items = B.content(evs, emp[0][1].a['args'][0], emp[0][0])
            if items and len(items) == 1:
                it = items[0]
                ls = Q.loops(it.ctx)
                if len(ls) == 1 and len(it.ctx) == 1:
                    cov = Q.covers(ls[0], lambda h: h == ('size', g))
                    if cov is False:
                        v = False
                    elif cov and it.v == S.mem(('ix', g, ls[0][1].a['i']), 'size_'):
                        v = True
        rep.judge(v, 'R6', at(fn), 'the range of a group has the sizes of its variables, in order')


def product(t, S_, g):
    if t[0] != 'fold':
        return None
    q, op, init, body = t[1], t[2], t[3], t[4]
    i = ('i', q[1])
    if body not in (('ix', S_, i), S.mem(('ix', g, i), 'size_')):
        return None
    if op not in ('*',):
        return False
    if init != S.lit(1):
        return False if S.is_num(init) else None
    if q[2] != S.lit(0) or q[3] not in (('size', S_), ('size', g)) or q[4] not in (1, S.lit(1)):
        return False if q[2] is not None and S.is_num(q[2]) and q[2] != S.lit(0) else None
    return True


# ------------------------------------------------------------------ copies
def enum_loop(ctx):
    for c in Q.loops(ctx):
        if c[1].a['lk'] == 'hof' and c[1].a['C'][1] == 'forEachCombination':
            C = c[1].a['C']
            return c, C[2], ''.join(C[4]) if isinstance(C[4], tuple) else str(C[4])
    return None


def cleared(p, rep):
    for fn in fns(p, FA + 'Function::clear'):
        evs = tree(p, rep, fn)
        for store in ('sparse', 'dense'):
            v = False
            for n, ctx in evs:
                if n.k != 'ev' or n.a['ek'] in ('decl', 'setv') or live(ctx, store, {}) is None:
                    continue
                if n.a['ek'] == 'set' and n.a['lv'] == DATA:
                    x = B.strip(n.a['v'])
                    if x[0] == 'ctor' and 'unordered_map' in str(x[1]) and not S.any_t(x, lambda y: y == DATA):
                        v = True if not live(ctx, store, {}) else None
                        continue
                v = None if v is False else v
            rep.judge(v, 'R7', at(fn), 'clearing drops all the images, %s storage' % store)


def copies(p, rep):
    cleared(p, rep)
    for fn in fns(p, FA + 'Function::cloneImages'):
        evs = tree(p, rep, fn)
        st = [n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'] == DATA and not conds(c)]
        od = S.mem(par(fn, 0), 'data_')
        rep.judge(True if len(st) == 1 and st[0].a['v'] == od else None, 'R7', at(fn), 'cloning takes all the images')
    F = S.mem(('this',), 'function_')
    for fn in fns(p, FA + 'Factor::Factor'):
        ts = [str(x.get('t')) for x in fn['params']]
        if fn.get('implicit') or not ts:
            continue
        o = par(fn, 0)
        of = S.mem(o, 'function_')
        if len(ts) == 1 and ts[0].replace('const ', '').replace('EFG::factor::', '').replace('&', '').strip() == 'Factor':
            evs = tree(p, rep, fn)
            st = [n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'mem' and n.a['lv'][2] == 'data_' and n.a['lv'][1] in (F, ('deref', F)) and not n.a.get('init')]
            cl = [n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] in ('set', 'cloneImages')]
            hofs = [c for n, c in evs if enum_loop(c)]
            v = None
            if len(st) == 1:
                v = True if st[0].a['v'] in (S.mem(of, 'data_'), S.mem(('deref', of), 'data_')) else None
            elif not st and not cl and not hofs:
                mk = [n.a['v'] for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'] == F]
                v = False if mk and all(x[0] == 'make' and x[1] == FA + 'Function' and x[2] and str(x[2][0]).find('variables_') >= 0 for x in mk) else None
            if v is None and hofs:
                es = tree(p, rep, fn, KEEP | {'set'})
                cs = [(n, c) for n, c in es if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'set']
                if len(cs) == 1 and enum_loop(cs[0][1]):
                    n, c = cs[0]
                    h = enum_loop(c)
                    i = h[0][1].a['i']
                    if h[1] in (of, ('deref', of)) and tuple(n.a['args']) == (('hp', 0, i), ('hp', 1, i)):
                        v = passes(conds(c[c.index(h[0]) + 1:]), ('hp', 1, i))
            rep.judge(v, 'R7', at(fn), 'the copy of a factor has its images')
        elif len(ts) == 2 and 'Clone' in ts[1]:
            evs = tree(p, rep, fn, KEEP | {'set'})
            cs = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'set']
            v, why = None, ''
            if len(cs) == 1:
                n, c = cs[0]
                h = enum_loop(c)
                if h and h[1] in (of, ('deref', of)):
                    i = h[0][1].a['i']
                    r = c[c.index(h[0]) + 1:]
                    if tuple(n.a['args']) == (('hp', 0, i), ('hp', 1, i)):
                        if h[2].startswith('false'):
                            v, why = False, ': the weight of the origin is not applied'
                        elif conds(r):
                            v = passes(conds(r), ('hp', 1, i))
                        elif h[2].startswith('true'):
                            v = True
            rep.judge(v, 'R7', at(fn), 'the clone of a factor has its actual images' + why)
    W = None
    for fn in fns(p, FA + 'ExponentialFunction::ExponentialFunction'):
        if len(fn['params']) < 2:
            continue
        evs = tree(p, rep, fn)
        g, w = [par(fn, 0), par(fn, 1)]
        mem = [n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'mem' and n.a['lv'][1] == ('this',) and n.a['v'] in (w, ('list', w))]
        if len(mem) == 1:
            W = mem[0].a['lv']
        rep.judge(True if len(mem) == 1 else None, 'R7', at(fn), 'an exponential factor keeps its weight')
        st = [(k, n) for k, (n, c) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'] == DATA and not n.a.get('init')]
        v, why = None, ''
        if len(st) == 1:
            x = B.strip(st[0][1].a['v'])
            if x[0] == 'vari':
                x = B.strip(x[2])
            items = B.content(evs, x, st[0][0])
            if x == S.mem(g, 'data_'):
                v = None
            elif items and len(items) == 1:
                it = items[0]
                h = enum_loop(it.ctx)
                if h and h[1] == g and it.v == ('hp', 1, h[0][1].a['i']):
                    r = it.ctx[it.ctx.index(h[0]) + 1:]
                    if conds(r):
                        v, why = (False, ': some are skipped') if all(about(c[1], it.v) for c in conds(r)) else (None, '')
                    elif h[2].startswith('true'):
                        v, why = False, ': not the raw ones'
                    elif h[2].startswith('false'):
                        v = True
        rep.judge(v, 'R7', at(fn), 'an exponential factor has the raw images of its origin' + why)
    for fn in fns(p, FA + 'ExponentialFunction::transform'):
        evs = tree(p, rep, fn, KEEP - {'transform'})
        x = par(fn, 0)
        rs = [n.a.get('v') for n, c in evs if n.k == 'ret']
        vs = []
        for n, c in evs:
            if n.k == 'ret' and n.a.get('v') and W is not None:
                for t, cs in branches(n.a['v'], [(y[1], y[2]) for y in conds(c)]):
                    vs.append(expo(t, cs, W, x))
        v = Q.worst(vs) if vs else None
        rep.judge(v, 'R7', at(fn), 'the image of an exponential factor is the exponential of weight times raw image')
    for fn in fns(p, FA + 'Function::transform'):
        evs = tree(p, rep, fn, KEEP - {'transform'})
        rs = [n.a.get('v') for n, c in evs if n.k == 'ret']
        x = par(fn, 0)
        rep.judge(True if rs == [x] else False if len(rs) == 1 and rs[0] and (S.is_num(rs[0]) or plain(rs[0], {x})) else None, 'R7', at(fn), 'the image of a plain factor is the raw one')
    for fn in fns(p, FA + 'FactorExponential::FactorExponential'):
        ts = [str(x.get('t')) for x in fn['params']]
        if fn.get('implicit') or not ts:
            continue
        o = par(fn, 0)
        evs = tree(p, rep, fn)
        mk = [n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'ctor' and n.a['cls'] == FA + 'ExponentialFunction' and len(n.a['args']) >= 2]
        of = S.mem(o, 'function_')
        if len(mk) != 1 or mk[0].a['args'][0] not in (of, ('deref', of)):
            if mk:
                rep.und('R7', at(fn), 'origin of an exponential factor')
            continue
        w = mk[0].a['args'][1]
        if 'FactorExponential' in ts[0]:
            good = W is not None and w == S.mem(of, W[2]) or w[0] == 'call' and w[1] == 'getWeight'
            rep.judge(True if good else False if S.is_num(w) else None, 'R7', mk[0].at, 'the copy of an exponential factor has its weight')
        elif len(ts) == 2:
            rep.judge(True if w == par(fn, 1) else False if S.is_num(w) else None, 'R7', mk[0].at, 'an exponential factor has the weight it was given')
    for nm, want in (('setWeight', 'set'), ('getWeight', 'get')):
        for fn in fns(p, FA + 'FactorExponential::' + nm):
            if W is None:
                continue
            evs = tree(p, rep, fn)
            wm = S.mem(F, W[2])
            if want == 'set':
                st = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'] == wm]
                x = par(fn, 0)
                v = None
                if len(st) == 1:
                    n, c = st[0]
                    if n.a['v'] == x and n.a['op'] in ('=', '=='):
                        v = True if not conds(c) else False if all(about(y[1], x) for y in conds(c)) else None
                    else:
                        v = False if plain(n.a['v'], {x, wm}) else None
                rep.judge(v, 'R7', at(fn), 'the weight is set to the given value')
            else:
                rs = [n.a.get('v') for n, c in evs if n.k == 'ret']
                rep.judge(True if rs == [wm] else False if len(rs) == 1 and rs[0] and plain(rs[0], {wm}) else None, 'R7', at(fn), 'the weight that is read is the one of the factor')


# ------------------------------------------------------------------ correlating factors
def correlated(p, rep):
    C = FA + 'SameValuesCombination'
    same_ok = True
    for fn in fns(p, C + '::next'):
        evs = tree(p, rep, fn)
        vm = S.mem(('this',), 'val')
        inc = [(k, n, c) for k, (n, c) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'] == vm]
        fill = [(k, n, c) for k, (n, c) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'ix']
        v = None
        if len(inc) == 1 and len(fill) == 1 and not inc[0][2] and len(fill[0][2]) == 1 and fill[0][2][0][0] == 'loop':
            L = fill[0][2][0]
            a = inc[0][1].a
            ok = a['op'] == '+' and a['v'] == S.lit(1)
            cov = Q.covers(L, lambda h: h[0] == 'size')
            v = False if cov is False or a['op'] == '+' and S.is_num(a['v']) and not ok or fill[0][0] < inc[0][0] else True if ok and cov and fill[0][1].a['v'] == vm and fill[0][1].a['lv'][2] == L[1].a['i'] else None
        rep.judge(v, 'R8', at(fn), 'the next combination of equal values')
        same_ok = same_ok and v is True
    for cls, want in (('SimplyCorrelatedFunction', 1), ('SimplyAntiCorrelatedFunction', 0)):
        for fn in fns(p, FA + cls + '::' + cls):
            if not fn['params'] or fn.get('implicit'):
                continue
            evs = tree(p, rep, fn)
            v, why = equal_values(fn, evs, want)
            rep.judge(v, 'R8', at(fn), cls + ': image %d at all the combinations of equal values, %d elsewhere%s' % (want, 1 - want, why))


def rounds(w, sz, groups, evs, L):
    """is the loop run once for each value, for small sizes; None: not understood"""
    ph = {x for x in S.all_t(w, lambda x: x[0] == 'phi')}
    if len(ph) != 1:
        return None
    ph = ph.pop()
    ss = [(m, x) for m, x in evs if m.k == 'ev' and m.a['ek'] == 'setv' and m.a['d'] == ph[2] and L in x]
    if len(ss) != 1 or ss[0][0].a['v'] != ('+', ph, S.lit(1)) or conds(ss[0][1][ss[0][1].index(L):]) or ph[3] != S.lit(0):
        return None

    def ev(t, k, n, v):
        if t == ph:
            return k
        if S.is_num(t):
            return t[1]
        if sz(t):
            return n
        if t[0] == 'size' and t[1] in groups:
            return v
        if t[0] == '!':
            return not ev(t[1], k, n, v)
        if t[0] in ('&&', '||', '+', '-', '*', '/', 'min', 'max') and len(t) == 3:
            a, b = ev(t[1], k, n, v), ev(t[2], k, n, v)
            if t[0] == '/' and b == 0 or t[0] == '-' and b > a:
                raise ValueError
            return {'&&': a and b, '||': a or b, '+': a + b, '-': a - b, '*': a * b, 'min': min(a, b), 'max': max(a, b)}[t[0]] if t[0] != '/' else a // b
        if t[0] == 'rel':
            a, b = ev(t[2], k, n, v), ev(t[3], k, n, v)
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b}[t[1]]
        raise ValueError
    try:
        for n in range(2, 7):
            for v in range(1, 5):
                k = 0
                while k <= n and ev(w, k, n, v):
                    k += 1
                if k != n:
                    return False
    except (ValueError, KeyError):
        return None
    return True


def equal_values(fn, evs, want):
    g = S.mem(par(fn, 0), 'group')
    me = S.mem(S.mem(('this',), 'variables_'), 'group')
    st = [(k, n) for k, (n, c) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'] == DATA and not n.a.get('init')]
    if len(st) != 1:
        return None, ''
    X = B.strip(st[0][1].a['v'])
    if X[0] == 'vari':
        X = B.strip(X[2])
    if X[0] != 'var':
        return None, ''
    decl = [n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'decl' and n.a['lv'] == X]
    if len(decl) != 1:
        return None, ''
    v0 = decl[0].a.get('v')
    if v0 is not None and v0[0] == 'ctor' and sparse_t(v0[1]):
        if want != 1:
            return None, ''
        ws = [(n, c, n.a['key'], n.a['v']) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['C'] == X and n.a['op'] == 'insert']
        ws += [(n, c, n.a['lv'][2], n.a['v']) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'val' and n.a['lv'][1] == X]
    else:
        u = uniform(evs, st[0][0], X)
        if u is None or u[0] != TOT:
            return (False, ': a wrong number of images') if u is not None and u[0][0] == '-' and u[0][1] == TOT else (None, '')
        if u[1] != S.lit(1 - want):
            return (False, ': the other images') if u[1] is not None and S.is_num(u[1]) else (None, '')
        ws = [(n, c, ranked(n.a['lv'][2]), n.a['v']) for k, n, c, r in u[2]]
    if len(ws) != 1 or ws[0][2] is None:
        return None, ''
    n, c, key, v = ws[0]
    if v != S.lit(want):
        return (False, ': another image') if v is not None and S.is_num(v) else (None, '')
    ls = Q.loops(c)
    if len(ls) != 1 or ls[0][2]:
        return None, ''
    L = ls[0]
    i = L[1].a['i']
    sz = lambda h: h[0] == 'mem' and h[2] == 'size_' and h[1][0] in ('ix', 'back') and h[1][1] in (g, me)
    inner = [x for x in c[c.index(L) + 1:] if x[0] == 'if']
    if L[1].a['lk'] == 'count':
        cov = Q.covers(L, sz)
        if cov is False:
            return False, ': not all the values'
        if cov is None:
            return None, ''
        cnt = i
    else:
        w = L[1].a.get('while')
        if w is None:
            w = L[1].a.get('c')
        if w is None:
            return None, ''
        if w[0] != 'rel' or w[1] not in ('<', '<=') or w[2][0] != 'phi':
            return (False, ': not all the values') if rounds(w, sz, (g, me), evs, L) is False else (None, '')
        ph = w[2]
        ss = [(m, x) for m, x in evs if m.k == 'ev' and m.a['ek'] == 'setv' and m.a['d'] == ph[2] and L in x]
        if not sz(w[3]):
            if w[3][0] in ('-', '+') and sz(w[3][1]) and S.is_num(w[3][2]):
                return False, ': not all the values'
            return None, ''
        if len(ss) != 1 or ss[0][0].a['v'] != ('+', ph, S.lit(1)) or conds(ss[0][1][ss[0][1].index(L):]):
            return None, ''
        if w[1] == '<=':
            return None, ''
        if ph[3] != S.lit(0):
            return (False, ': not all the values') if S.is_num(ph[3]) else (None, '')
        cnt = ph
    if inner:
        return (False, ': not all the values') if all(cmp_(x[1], cnt) for x in inner) else (None, '')
    f = fresh(key)
    if f is not None:
        if f[0] in (('size', g), ('size', me)):
            return (True, '') if f[1] == cnt else (None, '')
        return None, ''
    # the object that runs over the combinations of equal values
    o = key[1] if key[0] == 'deref' else key
    if o[0] == 'var':
        d = [m for m, x in evs if m.k == 'ev' and m.a['ek'] == 'decl' and m.a['lv'] == o]
        if len(d) == 1 and d[0].a.get('v') and d[0].a['v'][0] == 'ctor' and str(d[0].a['v'][1]).endswith('SameValuesCombination') and d[0].a['v'][2][:1] in ((('size', g),), (('size', me),)):
            adv = [(k, m, x) for k, (m, x) in enumerate(evs) if m.k == 'ev' and m.a['ek'] == 'set' and m.a['lv'] == S.mem(o, 'val')]
            if len(adv) == 1:
                k, m, x = adv[0]
                if L not in x:
                    return None, ''
                if conds(x[x.index(L):]):
                    return None, ''
                return (True, '') if k > Q.pos(evs, n) else (False, ': the first combination is skipped')
            if not adv:
                return False, ': always the same combination'
    return None, ''


def cmp_(c, cnt):
    if c[0] == '!':
        return cmp_(c[1], cnt)
    return c[0] == 'rel' and cnt in c[2:4] and any(S.is_num(x) for x in c[2:4])


# ------------------------------------------------------------------ probabilities
def probabilities(p, rep):
    fs = fns(p, FA + 'Immutable::getProbabilities')
    if not fs:
        return rep.missing('Immutable::getProbabilities')
    F = S.mem(('this',), 'function_')
    for fn in fs:
        evs = tree(p, rep, fn)
        rs = [(k, n) for k, (n, c) in enumerate(evs) if n.k == 'ret']
        if len(rs) != 1 or not rs[0][1].a.get('v') or B.strip(rs[0][1].a['v'])[0] != 'var':
            rep.und('R9', at(fn), 'probabilities')
            continue
        V = B.strip(rs[0][1].a['v'])
        pu = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['C'] == V and n.a['op'] == 'push']
        v, why = None, ''
        if len(pu) == 1:
            n, c = pu[0]
            h = enum_loop(c)
            if h and h[1] in (F, ('deref', F)):
                x = ('hp', 1, h[0][1].a['i'])
                r = c[c.index(h[0]) + 1:]
                if n.a['v'] == x:
                    if h[2].startswith('false'):
                        v, why = False, ': not the actual ones'
                    elif conds(r):
                        v, why = (False, ': some are skipped') if all(about(y[1], x) for y in conds(r)) else (None, '')
                    elif h[2].startswith('true'):
                        v = True
        rep.judge(v, 'R9', pu[0][0].at if pu else at(fn), 'all the actual images take part' + why)
        if v is not True:
            continue
        hL = enum_loop(pu[0][1])[0]
        # changes of the values
        for n, c in evs:
            if n.k != 'ev' or n.a['ek'] != 'set' or n.a['lv'][0] != 'ix' or n.a['lv'][1] != V:
                continue
            a = n.a
            L = Q.loop_of(c, a['lv'][2])
            cov = Q.covers(L, lambda h: h == ('size', V)) if L else None
            zero, some = None, None     # reached when the sum is null / is not
            for x in conds(c):
                if x[1][0] == 'rel' and any(S.is_num(y) for y in x[1][2:4]):
                    s = x[1][2] if S.is_num(x[1][3]) else x[1][3]
                    if total(s, V, hL):
                        zero = holds(x[1], s, 0) == x[2]
                        some = any(holds(x[1], s, y) == x[2] for y in POSITIVE)
                        most = all(holds(x[1], s, y) == x[2] for y in POSITIVE)
            if a['op'] == '/':
                den = a['v']
            elif a['op'] in ('=', '==') and a['v'][0] == '/' and a['v'][1] == a['lv']:
                den = a['v'][2]
            elif a['op'] in ('=', '=='):
                den = None
            else:
                rep.und('R9', n.at, 'normalization')
                continue
            if den is not None:
                t = total(den, V, hL)
                ok = True if t else False if den == ('size', V) or S.is_num(den) else total(den, V, hL, True)
                rep.judge(Q.worst([ok, cov] + ([not zero and most] if zero is not None else [])), 'R9', n.at, 'all the images are divided by their sum, unless it is null')
            else:
                x = a['v']
                u = x == ('/', S.lit(1), ('size', V))
                bad = x[0] == '/' and S.is_num(x[1]) and x[1] != S.lit(1) or S.is_num(x)
                rep.judge(Q.worst([True if u else False if bad else None, cov, None if zero is None else zero and not some]), 'R9', n.at, 'a null distribution becomes the uniform one')


def total(t, V, hL, wrong_=False):
    """sum of the values; wrong_: False when it is understood to be something else"""
    if t[0] == 'fold':
        q, op, init, body = t[1:5]
        i = ('i', q[1])
        if body == ('ix', V, i) or body == ('hp', 1, hL[1].a['i']):
            full = q[1] == hL[1].a['lid'] or q[2] == S.lit(0) and q[3] == ('size', V) and q[4] in (1, S.lit(1))
            if op == '+' and init == S.lit(0) and full:
                return True
            if wrong_ and (op != '+' or S.is_num(init) and init != S.lit(0) or q[2] is not None and S.is_num(q[2]) and q[2] != S.lit(0)):
                return False
    return None if wrong_ else False
