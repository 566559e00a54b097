"""Weights, gradients and clusters are listed in one order; each sample meets the right variables
(index analysis of the loops that fill and read the sequences)."""
import sym as S
import seqs as Q
import model as M

GA, GB = 'getGradientAlpha', 'getGradientBeta'
KEEP = {GA, GB, 'getWeight', 'setWeight', 'parallelFor', 'setEvidence', 'propagateBelief', 'resetBelief', 'removeAllEvidences', 'removeEvidence',
        'getObservedVariables', 'getHiddenVariables', 'resetImagesDependencies', 'addTunableFactor', 'copyTunableFactor'}
ASSUME = ['the list of observed variables is the same each time it is asked for, as long as the set of evidences does not change']


class Ctx:
    def __init__(self, m, this=('this',)):
        self.m = m
        self.T = S.mem(this, m.f['tuners'])

    def tuner_index(self, t):
        while t[0] in ('deref', 'addr', 'dyn', 'cast'):
            t = t[1] if t[0] in ('deref', 'addr') else t[2]
        if t[0] == 'ix' and self.m.role(t[1]) == 'tuners':
            return t[2]
        return None

    def ts(self, t):
        return t[0] == 'size' and self.m.role(t[1]) == 'tuners'


def sizes_of(evs, C):
    """terms the sequence was resized to"""
    out = []
    for n, ctx in evs:
        if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['C'] == C and n.a['op'] in ('resize', 'assign') and not Q.conds(ctx):
            out.append(n.a['key'])
        if n.k == 'ev' and n.a['ek'] == 'decl' and n.a['lv'] == C and n.a.get('v') is not None and isinstance(n.a['v'], tuple) and n.a['v'][0] in ('ctor', 'filled') :
            if len(n.a['v']) > 2 and n.a['v'][2]:
                out.append(n.a['v'][2][0])
    return out


def writes(evs, C):
    """[(index, value, op, event, context)] of the elements of the local sequence C; None: not understood"""
    out = []
    for n, ctx in evs:
        if n.k != 'ev':
            continue
        a = n.a
        if a['ek'] == 'mut' and a['C'] == C:
            if a['op'] == 'push':
                ls = Q.loops(ctx)
                if a.get('front') or len(ls) != 1 or not isinstance(a.get('v'), tuple):
                    return None
                out.append((ls[0][1].a['i'], a['v'], '=', n, ctx))
            elif a['op'] in ('resize', 'assign'):
                continue
            else:
                return None
        elif a['ek'] == 'set' and a['lv'][0] == 'ix' and a['lv'][1] == C:
            out.append((a['lv'][2], a['v'], a.get('op') or '=', n, ctx))
        elif a['ek'] == 'set' and a['lv'] == C:
            return None
    return out


def terms(t, sign=1):
    """signed addends"""
    if t[0] == '+' and len(t) == 3:
        return terms(t[1], sign) + terms(t[2], sign)
    if t[0] == '-' and len(t) == 3:
        return terms(t[1], sign) + terms(t[2], -sign)
    if t[0] in ('*',) and len(t) == 3:
        # one side holds the interesting part
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if S.is_num(a) and a[1] < 0:
                return terms(b, -sign)
        for a, b in ((t[1], t[2]), (t[2], t[1])):
            if not inter(a) and inter(b):
                return terms(b, sign)
    if t[0] == '/' and len(t) == 3 and not inter(t[2]):
        return terms(t[1], sign)
    if t[0] == 'neg':
        return terms(t[1], -sign)
    return [(sign, t)]


def inter(t):
    return S.any_t(t, lambda x: x[0] == 'call' and x[1] in (GA, GB) or x[0] == 'ix' and x[1][0] == 'var')


def contributions(evs, C, cx, depth=0):
    """[(kind, sign, idx verdict, event, ctx)] of the sequence: gradient parts with whether the tuner has the position of the element"""
    if depth > 3:
        return None
    ws = writes(evs, C)
    if ws is None:
        return None
    out = []
    for idx, v, op, n, ctx in ws:
        if op not in ('=', '+', '-'):
            return None
        for sg, t in terms(v, -1 if op == '-' else 1):
            if S.is_num(t):
                continue
            if t[0] == 'call' and t[1] in (GA, GB):
                k = cx.tuner_index(t[2])
                out.append((t[1], sg, None if k is None else False if Q.skips(evs, idx, ctx) else Q.same_index(k, idx), n, ctx, idx, t))
            elif t[0] == 'ix' and t[1][0] == 'var':
                if t[1] == C and op == '=':
                    continue
                sub = contributions(evs, t[1], cx, depth + 1)
                if sub is None:
                    return None
                same = Q.same_index(t[2], idx)
                for kind, s2, v2, n2, c2, i2, t2 in sub:
                    out.append((kind, sg * s2, Q.worst([same, v2]), n2, c2, i2, t2))
                out.append(('copy', sg, same, n, ctx, idx, t))
            else:
                return None
    return out


def check_gradient(p, m, rep, f):
    t = S.Sym(p, keep=KEEP).build(f)
    evs = Q.walk(t)
    cx = Ctx(m)
    rep.fn(f)
    at = (f['file'], f['l'])
    rets = [n for n, ctx in evs if n.k == 'ret' and n.a['v'][0] == 'var']
    top = [n for n, ctx in evs if n.k == 'ret']
    if not rets or top[-1] is not rets[-1]:
        return rep.und('R3', at, f['q'] + ': result')
    R = rets[-1].a['v']
    con = contributions(evs, R, cx)
    if con is None or Q.opaque_use(evs, R):
        return rep.und('R3', at, f['q'] + ': how the result is filled')
    kinds = {}
    for kind, sg, same, n, ctx, idx, t in con:
        if kind != 'copy':
            kinds.setdefault(kind, []).append(sg)
        what = {GA: 'the samples part', GB: 'the model part', 'copy': 'a part'}[kind]
        rep.judge(same, 'R3', n.at, '%s: %s added to an element is the one of the tuner in the same position' % (f['q'], what))
        lp = Q.loop_of(ctx, idx) if idx[0] == 'i' else None
        isz = lambda h: cx.ts(h) or h[0] == 'size' and h[1][0] == 'var'
        rep.judge(Q.covers(lp, isz) if lp else None, 'R3', n.at, '%s: %s is computed for every tuner' % (f['q'], what))
        inner = ctx[ctx.index(lp) + 1:] if lp else ctx
        cs = [c for c in Q.conds(ctx) if not (c in ctx[:ctx.index(lp)] if lp else False)]
        if cs:
            rep.und('R3', n.at, '%s: %s is conditional' % (f['q'], what))
        for c in ctx:
            if c[0] == 'task':
                runs(rep, f, evs, c[1], n)
    for kind, sg in ((GA, 1), (GB, -1)):
        ks = kinds.get(kind, [])
        rep.judge(True if ks == [sg] else False, 'R3', at, '%s: %s enters the result once, %s' % (
            f['q'], 'the samples part' if kind == GA else 'the model part', 'added' if sg > 0 else 'subtracted'))
    # samples
    for n, ctx in evs:
        if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'parallelFor':
            for c in ctx:
                if c[0] == 'loop' and c[1].a['lk'] == 'hof':
                    sample_loop(p, m, rep, f, evs, c, n, ctx)


def runs(rep, f, evs, push, n):
    """the tasks the task is pushed onto are run afterwards"""
    C = push.a['C']
    after = evs[Q.pos(evs, push):]
    calls = [(x, c) for x, c in after if x.k == 'ev' and x.a['ek'] == 'call' and x.a['n'] == 'parallelFor' and any(S.has(y, C) for y in x.a['args'])]
    un = [x for x, c in calls if all(Q.holds_small(z[1], z[2], C) for z in Q.conds(c))]
    part = calls and all(any(Q.holds_small(z[1], z[2], C) is False for z in Q.conds(c)) for x, c in calls)
    rep.judge(True if un else (None if calls and not part or Q.opaque_use(after, C) else False), 'R3', push.at, f['q'] + ': the prepared tasks are run')


def sample_loop(p, m, rep, f, evs, loop, run, rctx):
    """evidences of each sample: right variable, right value, before propagation and gradients"""
    body = [(n, ctx) for n, ctx in evs if loop in ctx and not any(c[0] == 'task' for c in ctx)]
    at = loop[1].at
    sam = ('hp', 0, loop[1].a['i'])
    k = Q.pos(body, run)
    sets = [(n, ctx) for n, ctx in body[:k] if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'setEvidence']
    prop = [(i, n) for i, (n, ctx) in enumerate(body[:k]) if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'propagateBelief']
    rep.judge(bool(sets) or (None if any(x.k == 'ev' and x.a['ek'] == 'call' and x.a['n'] in ('setEvidences',) for x, _ in body) else False), 'R4', at, f['q'] + ': the evidences of each sample are set')
    late = [n for n, ctx in body[k:] if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'propagateBelief']
    rep.judge(True if prop else False if late else None, 'R4', at, f['q'] + ': the belief is propagated for each sample, before the parts are computed')
    for n, ctx in sets:
        i = Q.pos(body, n)
        if prop:
            rep.judge(prop[-1][0] > i, 'R4', n.at, f['q'] + ': the evidences are set before the propagation of the same sample')
        a = [x for x in n.a['args']]
        if len(a) != 2:
            continue
        var, val = a
        ls = [c for c in Q.loops(ctx) if c is not loop and c in ctx[ctx.index(loop):]]
        var = strip(var)
        if var[0] in ('ix', 'key') and val[0] == 'ix' and val[1] == sam:
            j = var[2]
            src = var[1]
            pt = val[2]
            lp = Q.loop_of(ctx, j) if j[0] == 'i' else None
            rep.judge(Q.covers(lp, lambda h: h[0] == 'size') if lp else None, 'R4', n.at, f['q'] + ': every observed variable gets the value of the sample')
            if pt[0] == 'ix' and pt[1][0] == 'mem':
                same = Q.same_index(pt[2], j)
                rep.judge(same, 'R4', n.at, f['q'] + ': the position read is the one of the variable that is set')
                if src[0] == 'call' and src[1] == 'getObservedVariables':
                    positions(p, m, rep, pt[1], True)
                elif src[0] in ('mem',) and m.role(src) == 'evidences':
                    rep.bad('R4', n.at, f['q'] + ': positions follow the order of the observed variables, the evidences have another one')
                else:
                    rep.und('R4', n.at, f['q'] + ': order of the variables')
            elif Q.arith(pt) or shifted(pt):
                rep.bad('R4', n.at, f['q'] + ': the position of the value in the sample is the one of the variable in the model')
            else:
                rep.und('R4', n.at, f['q'] + ': position in the sample')
        else:
            rep.und('R4', n.at, f['q'] + ': value taken from the sample')


def shifted(t):
    """arithmetic on the stored positions"""
    leaf = lambda x: S.is_num(x) or x[0] in ('i', 'size') or x[0] in ('back', 'front') and x[1][0] == 'mem' or x[0] == 'ix' and x[1][0] == 'mem' and leaf(x[2])
    ar = lambda x: leaf(x) or x[0] in ('+', '-', '*', '/', '%') and all(ar(y) for y in x[1:] if isinstance(y, tuple))
    return t[0] in ('back', 'front') and t[1][0] == 'mem' or t[0] in ('+', '-', '*', '/', '%') and ar(t) and not any(y == S.lit(0) for y in t[1:])


def kept(evs, par):
    """the returned member is computed by this very call: True; False when a value of an earlier call can be returned"""
    rets = [n for n, c in evs if n.k == 'ret' and isinstance(n.a.get('v'), tuple) and not Q.loops(c)]
    if len(rets) != 1:
        return None
    R = rets[0].a['v']
    root = R
    while root[0] in ('mem', 'deref') and root[1] != ('this',):
        root = root[1]
    if root[0] != 'mem':
        return True if not S.any_t(R, lambda x: x[0] == 'this') or R[0] in ('out', 'call', 'fold') else None
    first = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and (n.a['lv'] == root or n.a['lv'] == R) and not Q.loops(c) and n.a.get('op', '=') == '=']
    if not first:
        return None
    ok = None
    for n, c in first:
        cs = Q.conds(c)
        if not cs:
            return True
        r = [always(x[1] if x[2] else ('!', x[1]), par, root) for x in cs]
        if all(x is True for x in r):
            return True
        if None not in r:
            ok = False
    return ok


def always(c, par, root):
    """the condition holds although the members hold something: comparisons with the address of the samples, which is never stored, are of different things;
    'free': there are samples for which it does and others for which it does not"""
    if c[0] == '!':
        r = always(c[1], par, root)
        return r if r in (None, 'free') else not r
    if c[0] in ('||', '&&'):
        a, b = always(c[1], par, root), always(c[2], par, root)
        top = c[0] == '||'
        if a is top or b is top:
            return top
        return None if a is None or b is None else 'free' if 'free' in (a, b) else not top
    if c[0] == 'isset' and (c[1] == root or c[1][0] == 'mem' and S.has(c[1], root)):
        return True     # since the second call
    if c[0] == 'rel' and c[1] == '==' and any(x[0] == 'addr' and x[1] == par for x in c[2:4]):
        return False
    if c[0] == 'rel' and any(amount(x, par) for x in c[2:4]) and all(amount(x, par) or S.is_num(x) or S.has(x, root) for x in c[2:4]):
        return 'free'
    if c[0] == 'bool':
        return c[1]
    return None


def amount(t, par):
    """how many samples"""
    if t[0] == 'cond':
        return amount(t[2], par) and amount(t[3], par)
    return t[0] == 'size' and S.has(t, par) or t[0] == 'call' and t[1] == 'size' and S.has(t, par)


def strip(t):
    while t[0] in ('deref', 'addr'):
        t = t[1]
    return t


def positions(p, m, rep, loc, seen):
    """the stored positions: element j is where the j-th observed variable is among all the variables"""
    found = False
    for f in M_fns(p, loc[2]):
        t = S.Sym(p, keep=KEEP | {'absorbConstFactors', 'absorbTunableClusters', 'replaceIfNeeded', 'findVariable', 'getAllVariables'}).build(f)
        evs = Q.walk(t)
        for n, ctx in evs:
            if n.k != 'ev' or n.a['ek'] != 'set' or n.a['lv'] != loc:
                continue
            found = True
            rep.fn(f)
            late = [x for x, c in evs[Q.pos(evs, n):] if x.k == 'ev' and x.a['ek'] == 'call' and x.a['n'] == 'setEvidence']
            rep.judge(not late, 'R4', n.at, f['q'] + ': the positions are stored when the evidences are known')
            v = n.a['v']
            if v[0] == 'copy':
                v = v[1]
            ws = writes(evs, v) if v[0] == 'var' else None
            if not ws:
                rep.und('R4', n.at, f['q'] + ': stored positions')
                continue
            for idx, x, op, n2, c2 in ws:
                lp = Q.loop_of(c2, idx) if idx[0] == 'i' else None
                ok = None
                if lp and not Q.conds(c2):
                    fi = [y for y in S.all_t(x, lambda y: y[0] in ('find', 'findi', 'pick', 'call'))]
                    ok = position_of(x, lp, idx)
                rep.judge(ok, 'R4', n2.at, f['q'] + ': the stored position is the one of that observed variable among all the variables')
    if not found:
        rep.und('R4', ('', 0), 'stored positions of the evidences')


def position_of(x, lp, idx):
    """x = distance(begin(all), find(all, observed[idx]))"""
    if x[0] == '-' and x[2][0] == 'begin':
        x, b = x[1], x[2][1]
    elif x[0] in ('call', 'dist', 'pos') and len(x) > 2:
        b = None
    else:
        b = None
    fs = S.all_t(x, lambda y: y[0] in ('find', 'findi', 'idx', 'posof'))
    al = S.all_t(x, lambda y: y[0] == 'call' and y[1] == 'getAllVariables') or S.all_t(x, lambda y: y[0] == 'mem' and y[2] == 'variables')
    ob = [y for y in S.all_t(x, lambda y: y[0] == 'ix' and y[2] == idx)]
    C = lp[1].a['C']
    if fs and al and ob and C is not None and S.any_t(C, lambda y: y[0] == 'call' and y[1] == 'getObservedVariables'):
        return Q.covers(lp, lambda h: h[0] == 'size')
    if any(S.any_t(y[1], lambda z: z[0] == 'call' and z[1] in ('getHiddenVariables', 'getObservedVariables')) for y in fs if y[0] == 'find'):
        return False
    if x == idx or C is not None and S.any_t(C, lambda y: y[0] == 'call' and y[1] in ('getHiddenVariables', 'getAllVariables')):
        return False
    return None


def M_fns(p, field):
    """functions that name the field"""
    return [f for f in p.funcs.values() if f.get('body') and not f.get('implicit') and Q.touches(f, field)]


def run(p, rep):
    m = M.Model(p)
    rep.rule('R1', 'the list of weights (of clusters): one element per tuner, in the order of the tuners')
    rep.rule('R2', 'setting the weights: every tuner gets the weight in its own position')
    rep.rule('R3', 'each element of the gradient is the samples part minus the model part of the tuner in the same position, for every tuner; prepared tasks are run')
    rep.rule('R4', 'gradient of conditional fields: for each sample all the observed variables get the value at their own position, then the belief is propagated, '
             'then the parts are computed')
    rep.rule('R5', 'the samples part is never reused for other samples: no address of a train set is remembered')
    rep.rule('R6', 'tuners are appended or replaced in place: positions do not change')
    rep.rule('R7', 'the observed values of a conditional field: the k-th value is set to the k-th of the observed variables, for all of them; the combinations '
             'generated for a train set run over the observed variables in that order')
    cx = Ctx(m)
    seen = set()
    for q, getter in (('EFG::train::FactorsTunableGetter::getWeights', 'weight'), ('EFG::train::FactorsTunableGetter::getTunableClusters', 'cluster')):
        for f in p.fns(q):
            if not f.get('body'):
                continue
            seen.add(getter)
            listing(p, m, rep, f, getter, cx)
    for f in p.fns('EFG::train::FactorsTunableGetter::setWeights'):
        if f.get('body'):
            seen.add('set')
            setting(p, m, rep, f, cx)
    for f in list(p.funcs.values()):
        if f.get('n') == 'getWeightsGradient_' and f.get('body'):
            seen.add('gradient')
            check_gradient(p, m, rep, f)
    for f in list(p.funcs.values()):
        if f.get('n') == GA and f.get('body') and any('Iterator' in (a.get('t') or '') for a in f['params']):
            seen.add('alpha')
            rep.fn(f)
            t = S.Sym(p, keep=KEEP | {'findImage', 'forEachSample'}).build(f)
            bad = None
            for n, ctx in Q.walk(t):
                if n.k == 'ev' and n.a['ek'] == 'set' and S.any_t(n.a['lv'], lambda x: x[0] == 'this') and isinstance(n.a.get('v'), tuple):
                    vs = list(n.a['v']) + list(n.a.get('args') or ())
                    if any(isinstance(x, tuple) and S.any_t(x, lambda y: y[0] == 'addr' and y[1][0] == 'p') for x in [n.a['v']] + list(n.a.get('args') or ())):
                        bad = n
            rep.judge(kept(Q.walk(t), ('p', 0, f['params'][0]['n'])), 'R5', (f['file'], f['l']), f['q'] + ': the samples part is computed each time')
            rep.judge(bad is None, 'R5', bad.at if bad else (f['file'], f['l']), f['q'] + ': the address of the samples is not what tells them apart later')
    for f in list(p.funcs.values()):
        if f.get('n') == 'setEvidences' and f.get('body') and f['params'] and 'vector' in (f['params'][0].get('t') or '') and 'map' not in (f['params'][0].get('t') or ''):
            seen.add('values')
            values(p, m, rep, f)
        if f.get('n') == 'makeTrainSet' and f.get('body'):
            ranges(p, m, rep, f)
    # R6
    for f in list(p.funcs.values()):
        if not f.get('body') or not Q.touches(f, m.f['tuners']):
            continue
        t = S.Sym(p, keep=KEEP | {x['n'] for x in m.entries()}).build(f)
        for n, ctx in Q.walk(t):
            if n.k == 'ev' and n.a['ek'] == 'mut' and m.role(n.a['C']) == 'tuners':
                op = n.a['op']
                ok = op == 'push' and not n.a.get('front')
                if op in ('insert',) and n.a.get('key') and n.a['key'][0] == 'end':
                    ok = True
                if op in ('[]', 'at'):
                    continue
                rep.judge(True if ok else False if op in ('push', 'erase', 'clear', 'swap', 'sort', 'insert', 'pop_back', 'remove_if') else None, 'R6', n.at,
                          '%s: tuners are only appended' % f['q'])
            elif n.k == 'ev' and n.a['ek'] == 'set' and n.a.get('swap') and element(m, n.a['lv']) and element(m, n.a['v']):
                rep.bad('R6', n.at, '%s: the order of the tuners changes' % f['q'])
            elif n.k == 'ev' and n.a['ek'] == 'call' and n.a.get('std') and n.a['n'] in ('sort', 'reverse', 'rotate', 'shuffle', 'swap', 'stable_sort', 'partition', 'iter_swap', 'swap_ranges') \
                    and any(isinstance(x, tuple) and S.any_t(x, lambda y: y[0] == 'mem' and y[2] == m.f['tuners']) for x in n.a['args']):
                rep.bad('R6', n.at, '%s: the order of the tuners changes' % f['q'])
    for s in ('weight', 'cluster', 'set', 'gradient', 'alpha', 'values'):
        if s not in seen:
            rep.missing(s)


def element(m, t):
    while isinstance(t, tuple) and t and t[0] == 'deref':
        t = t[1]
    return isinstance(t, tuple) and len(t) > 1 and t[0] in ('ix', 'back', 'front', 'endm', 'itp', 'begin') and m.role(t[1]) == 'tuners'


def listing(p, m, rep, f, getter, cx):
    t = S.Sym(p, keep=KEEP).build(f)
    evs = Q.walk(t)
    rep.fn(f)
    at = (f['file'], f['l'])
    rets = [n for n, c in evs if n.k == 'ret' and not any(x[0] == 'task' for x in c)]
    R = rets[-1].a['v'] if rets else None
    if not R or R[0] != 'var':
        return rep.und('R1', at, f['q'] + ': result')
    pushes = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['C'] == R and n.a['op'] == 'push']
    sets = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'ix' and n.a['lv'][1] == R]
    if not pushes and not sets or Q.opaque_use(evs, R):
        return rep.und('R1', at, f['q'] + ': how the result is filled')
    # pushes in the alternatives of one test count as one
    seen_alt = {}
    for n, ctx in pushes + sets:
        lp = [c for c in Q.loops(ctx) if cx.ts(c[1].a['hi']) or c[1].a['C'] is not None and m.role(c[1].a['C']) == 'tuners']
        if len(lp) != 1 or n.a['ek'] == 'mut' and (n.a.get('front') or len(Q.loops(ctx)) != 1):
            if n.a['ek'] == 'mut' and n.a.get('front') and len(lp) == 1:
                rep.bad('R1', n.at, f['q'] + ': elements follow the order of the tuners')
            else:
                # the factors are visited, not the tuners
                C = Q.loops(ctx)[0][1].a.get('C') if len(Q.loops(ctx)) == 1 else None
                oth = C is not None and m.role(C) in ('tunablef', 'factors', 'constf')
                rep.judge(False if oth and not S.any_t(n.a['v'], lambda y: y[0] == 'mem' and y[2] == m.f['tuners']) else None, 'R1', n.at, f['q'] + ': an element for each tuner')
            continue
        i = lp[0][1].a['i']
        idx = i if n.a['ek'] == 'mut' else n.a['lv'][2]
        v = n.a['v']
        if v is not None and v[0] == 'var':
            vals = [w.a['v'] for w, c in evs if w.k == 'ev' and w.a['ek'] == 'mut' and w.a['C'] == v and w.a['op'] == 'push' and isinstance(w.a.get('v'), tuple)]
        else:
            vals = [v] if isinstance(v, tuple) else []
        ks = {x[2] for y in vals for x in S.all_t(y, lambda z: z[0] == 'ix' and m.role(z[1]) == 'tuners')}
        verd = None
        if len(ks) == 1:
            verd = Q.same_index(list(ks)[0], idx)
        rep.judge(Q.worst([verd, Q.covers(lp[0], lambda h: cx.ts(h))]), 'R1', n.at, f['q'] + ': the %s of every tuner, in its position' % getter)
        if v is not None and v[0] == 'var' and len(ks) == 1:
            for w, c in evs:
                if w.k == 'ev' and w.a['ek'] == 'mut' and w.a['C'] == v and w.a['op'] == 'push':
                    inner = [x for x in Q.loops(c) if x not in lp]
                    if len(inner) == 1:
                        rep.judge(Q.worst([Q.covers(inner[0], lambda h: h[0] == 'size')] + ([None] if [y for y in Q.conds(c) if y not in Q.conds(ctx)] else [])), 'R1', w.at,
                                  f['q'] + ': all the elements of the cluster')
        cs = [(c[1], c[2]) for c in Q.conds(ctx) if ctx.index(c) > ctx.index(lp[0])]
        for c, pol in cs:
            seen_alt.setdefault(c, set()).add(pol)
        if not cs:
            seen_alt[None] = {True, False}
    for c, pols in seen_alt.items():
        if pols != {True, False} and None not in seen_alt:
            rep.judge(False if only_tuner(c, m) else None, 'R1', at, f['q'] + ': an element for every tuner')


def only_tuner(c, m):
    return True


def setting(p, m, rep, f, cx):
    t = S.Sym(p, keep=KEEP).build(f)
    evs = Q.walk(t)
    rep.fn(f)
    at = (f['file'], f['l'])
    par = ('p', 0, f['params'][0]['n'])
    calls = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'setWeight']
    if not calls:
        return rep.judge(None if Q.opaque_use(evs, par) else False, 'R2', at, f['q'] + ': every tuner gets its weight')
    for n, ctx in calls:
        k = cx.tuner_index(n.a['o']) if n.a.get('o') else None
        w = n.a['args'][0]
        w = w if w[0] == 'ix' and w[1] == par else None
        if k is None or w is None:
            rep.und('R2', n.at, f['q'] + ': weight of a tuner')
            continue
        rep.judge(Q.same_index(k, w[2]), 'R2', n.at, f['q'] + ': the weight in the position of the tuner')
        lp = Q.loop_of(ctx, k) if k[0] == 'i' else None
        isz = lambda h: cx.ts(h) or h == ('size', par)
        v = Q.covers(lp, isz) if lp else None
        if Q.conds(ctx):
            v = None
            inner = [c for c in Q.conds(ctx) if lp and ctx.index(c) > ctx.index(lp)]
            if inner:
                v = False
        rep.judge(v, 'R2', n.at, f['q'] + ': every tuner gets its weight')


def observed(t):
    return S.any_t(t, lambda y: y[0] == 'call' and y[1] == 'getObservedVariables')


def values(p, m, rep, f):
    t = S.Sym(p, keep=KEEP).build(f)
    evs = Q.walk(t)
    rep.fn(f)
    par = ('p', 0, f['params'][0]['n'])
    calls = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'setEvidence' and len(n.a['args']) == 2]
    if not calls:
        rep.und('R7', (f['file'], f['l']), f['q'] + ': values')
    for n, ctx in calls:
        var, val = strip(n.a['args'][0]), n.a['args'][1]
        if var[0] not in ('ix', 'key') or val[0] != 'ix' or val[1] != par:
            rep.und('R7', n.at, f['q'] + ': value of a variable')
            continue
        if var[0] == 'ix' and observed(var[1]):
            rep.judge(Q.same_index(var[2], val[2]), 'R7', n.at, f['q'] + ': the value in the position of the variable')
        elif m.role(var[1]) == 'evidences':
            rep.bad('R7', n.at, f['q'] + ': the evidences are in another order than the observed variables')
        else:
            rep.und('R7', n.at, f['q'] + ': order of the variables')
        lp = Q.loop_of(ctx, var[2]) if var[2][0] == 'i' else None
        v = Q.covers(lp, lambda h: h[0] == 'size') if lp else None
        if [c for c in Q.conds(ctx)]:
            v = None
        rep.judge(v, 'R7', n.at, f['q'] + ': every observed variable gets its value')


def ranges(p, m, rep, f):
    t = S.Sym(p, keep=KEEP | {'setEvidences', 'makeSamples', 'getAllVariables', 'for_each_combination'}).build(f)
    rep.fn(f)
    for n, ctx in Q.walk(t):
        if n.k == 'ev' and n.a['ek'] == 'ctor' and n.a['cls'] == 'EFG::categoric::Group' and n.a['args']:
            a = n.a['args'][0]
            if observed(a):
                ok = True if a[0] in ('listof', 'call') else None
            elif S.any_t(a, lambda y: y[0] == 'call' and y[1] in ('getHiddenVariables', 'getAllVariables')) or S.any_t(a, lambda y: m.role(y) == 'evidences' if y[0] == 'mem' else False):
                ok = False
            else:
                ok = None
            rep.judge(ok, 'R7', n.at, f['q'] + ': combinations of the observed variables, in their order')
