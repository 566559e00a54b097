"""Factors that share a weight always have the same one (effects on the elements of composites; joins on all paths)."""
import sym as S
import flow as F
import seqs as Q
import model as M

CT = 'EFG::train::CompositeTuner'
KEEP = {'getGradientAlpha', 'getGradientBeta', 'getWeight', 'setWeight', 'resetImagesDependencies', 'addDistribution', 'findTuner', 'makeTuner', 'locate'}
ASSUME = ['the weight of a factor is changed by the model only through its tuner']


def strip(t):
    while t[0] in ('deref', 'addr'):
        t = t[1]
    return t


def elements_field(p):
    r = p.record(CT)
    c = [x['n'] for x in r['f'] if 'unique_ptr' in x['t'] and 'vector' in x['t']] if r else []
    return c[0] if c else 'elements'


def run(p, rep):
    m = M.Model(p)
    rep.rule('R1', 'the composite: a new weight goes to every element, its weight is the one of an element, each gradient part is the sum over all the elements')
    rep.rule('R2', 'joining a group: on every completing path the weight the group had is given to the joining factor too')
    rep.rule('R3', 'the group named by the caller is the one whose variables are compared: all the elements of a composite are considered')
    rep.rule('R4', 'absorbing a cluster: its first factor is inserted alone, every other one with the group of a factor of the same cluster')
    rep.rule('R5', 'a tuner that is replaced leaves its place to one for the same factor; the elements of composites are considered one by one')
    rep.rule('R7', 'the clusters that are reported list all the elements of a composite')
    rep.rule('R6', 'a tuner gives the weight to, and takes it from, its own factor; the factor passes it to its function')
    E = S.mem(('this',), elements_field(p))
    composite(p, rep, E)
    joins(p, m, rep, E[2])
    clusters(p, m, rep, E[2])
    finder(p, m, rep, E[2])
    absorbing(p, m, rep)
    replacing(p, m, rep, E[2])
    forwarding(p, rep)


def composite(p, rep, E):
    seen = set()
    for f in p.fns(CT + '::setWeight'):
        if not f.get('body'):
            continue
        seen.add('set')
        rep.fn(f)
        evs = Q.walk(S.Sym(p, keep=KEEP).build(f))
        calls = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'setWeight']
        par = ('p', 0, f['params'][0]['n'])
        at = (f['file'], f['l'])
        if not calls:
            rep.judge(False if not any(n.k == 'ev' and n.a['ek'] in ('call', 'opq') for n, _ in evs) else None, 'R1', at, f['q'] + ': the weight goes to the elements')
        if calls and all(strip(n.a['o'])[0] == 'back' or strip(n.a['o'])[0] == 'ix' and (S.is_num(strip(n.a['o'])[2]) or Q.arith(strip(n.a['o'])[2]) and
                         not S.any_t(strip(n.a['o'])[2], lambda x: x[0] == 'i')) for n, _ in calls):
            rep.bad('R1', calls[0][0].at, f['q'] + ': the weight goes to every element, however many they are')
            continue
        for n, ctx in calls:
            o = strip(n.a['o'])
            if o[0] != 'ix' or o[1] != E:
                rep.und('R1', n.at, f['q'] + ': which element')
                continue
            lp = Q.loop_of(ctx, o[2]) if o[2][0] == 'i' else None
            v = Q.covers(lp, lambda h: h == ('size', E)) if lp else (False if S.is_num(o[2]) and len(calls) == 1 else None)
            if [c for c in Q.conds(ctx)]:
                v = cond_verdict([c for c in Q.conds(ctx)], E, par)
            rep.judge(v, 'R1', n.at, f['q'] + ': the weight goes to every element')
            rep.judge(True if n.a['args'][0] == par else None if n.a['args'][0][0] in ('unk', 'phi', 'call') else False, 'R1', n.at, f['q'] + ': it is the weight that was asked for')
    for f in p.fns(CT + '::getWeight'):
        if not f.get('body'):
            continue
        seen.add('get')
        rep.fn(f)
        for n, c in Q.walk(S.Sym(p, keep=KEEP).build(f)):
            if n.k == 'ret':
                v = n.a['v']
                rep.judge(True if v[0] == 'call' and v[1] == 'getWeight' and S.has(v[2], E) else None, 'R1', n.at, f['q'] + ': the weight of an element')
    for nm in ('getGradientAlpha', 'getGradientBeta'):
        for f in p.fns(CT + '::' + nm):
            if not f.get('body'):
                continue
            seen.add(nm)
            rep.fn(f)
            t = S.Sym(p, keep=KEEP).build(f)
            evs = Q.walk(t)
            rets = [n for n, c in evs if n.k == 'ret']
            at = (f['file'], f['l'])
            v = rets[-1].a['v'] if rets else None
            ok = None
            if v is not None and len(rets) == 1:
                ok = summed(v, nm, E)
            rep.judge(ok, 'R1', rets[-1].at if rets else at, f['q'] + ': the sum over all the elements')
    for s in ('set', 'get', 'getGradientAlpha', 'getGradientBeta'):
        if s not in seen:
            rep.missing('composite ' + s)


def cond_verdict(cs, E, par):
    """conditions under which an element is skipped"""
    out = True
    for _, c, pol in cs:
        h = Q.holds_small(c, pol, E)
        if h is not True:
            # depends on the position or on the weight: some are skipped
            ident = c[1] if c[0] == '!' else c
            ident = ident[0] == 'rel' and ident[1] in ('==', '!=') and all(strip(x)[0] in ('ix', 'back') and strip(x)[1] == E for x in ident[2:4])
            out = False if h is False or ident or S.any_t(c, lambda x: x[0] == 'i') and Q.arith_cond(c) else None if out is not False else False
    return out


def summed(v, nm, E):
    if v[0] == 'fold':
        q, op, ini, x = v[1], v[2], v[3], v[4]
        if op != '+':
            return False if op in ('*', '-', 'max', 'min') else None
        ok = x[0] == 'call' and x[1] == nm and strip(x[2])[0] == 'ix' and strip(x[2])[1] == E
        if not ok:
            other = S.all_t(x, lambda y: y[0] == 'call' and y[1].startswith('getGradient'))
            if other and all(y[1] != nm for y in other):
                return False
            if x[0] == '/' and ok is False:
                return False if S.any_t(x[2], lambda y: y == ('size', E)) else None
            return None
        if not S.is_num(ini):
            return None
        lo, hi, st = q[2], q[3], q[4]
        if ini[1] != 0:
            return False
        if st not in (1, S.lit(1)):
            return None
        if lo == S.lit(0) and hi == ('size', E):
            return True
        if S.is_num(lo) and lo[1] != 0 or hi[0] == '-' and hi[1] == ('size', E):
            return False
        return None
    if v[0] == 'call' and v[1] == nm and S.has(v[2], E):
        return False
    if v[0] == '/' and v[1][0] == 'fold' and S.any_t(v[2], lambda y: y == ('size', E)):
        return False
    if v[0] == 'call' and v[1] == 'accumulate':
        return None
    return None


class Join(F.Client):
    def __init__(self, m, el):
        self.m = m
        self.el = el
        self.sites = set()
        self.reads = 'front'        # the element a composite asks for its weight

    def wants(self, f):
        return f[0] == 'done'

    def fresh(self, t):
        """the tuner of the joining factor"""
        return S.any_t(t, lambda x: x[0] == 'call' and x[1] == 'makeTuner' or x[0] == 'make' and x[1].endswith('Tuner') and not x[1].endswith('CompositeTuner')
                       or x[0] == 'p' and x[2] == self.par)

    def group(self, t):
        return S.any_t(t, lambda x: x[0] == 'call' and x[1] == 'findTuner' or x[0] in ('findi', 'pick', 'ix') and self.m.role(x) == 'tuners[]')

    def event(self, n, facts, may):
        a = n.a
        add, rem = set(), set()
        if a['ek'] == 'mut' and a['op'] in ('push', 'insert') and a['C'][0] != 'var' and S.any_t(a['C'], lambda x: x[0] == 'mem' and x[2] == self.el) and self.group(a['C']):
            self.sites.add(n.at)
            add.add(('done', 'join', n.at))
            rem = {x for x in facts if x[:2] == ('done', 'synced')}
        elif a['ek'] in ('set', 'decl') and isinstance(a.get('v'), tuple) and a['lv'][0] != 'var' and S.any_t(a['v'], lambda x: x[0] == 'make' and x[1] == CT):
            self.sites.add(n.at)
            mk = S.all_t(a['v'], lambda x: x[0] == 'make' and x[1] == CT)[0]
            first = mk[2][0] if mk[2] else None
            add.add(('done', 'join', n.at))
            if first is not None:
                g = self.group(first)
                if self.fresh(first) and not g:
                    add.add(('done', 'newfirst'))
                elif not g:
                    add.add(('done', 'first?'))
            rem = {x for x in facts if x[:2] == ('done', 'synced')}
        elif a['ek'] == 'call' and a['n'] == 'setWeight' and a.get('args') and a.get('o') is not None:
            w = a['args'][0]
            o = a['o']
            new_o = self.fresh(o) and not self.group(o)
            mk = S.all_t(o, lambda x: x[0] == 'make' and x[1] == CT)
            if mk:
                new_o = True
            gw = S.all_t(w, lambda x: x[0] == 'call' and x[1] == 'getWeight')
            val = 'x'
            if len(gw) == 1 and w == gw[0]:
                mw = S.all_t(gw[0][2], lambda x: x[0] == 'make' and x[1] == CT)
                if mw:
                    first = (mw[0][2][0] if self.reads == 'front' else mw[0][2][-1] if self.reads == 'back' else ('unk',)) if mw[0][2] else ('unk',)
                    val = 'group' if self.group(first) else 'new' if self.fresh(first) else 'x'
                elif self.group(gw[0][2]):
                    # asked to the group: before or after the join
                    val = 'group'
                    if self.reads != 'front' and ('done', 'wasked', w) not in facts and any(x[:2] == ('done', 'join') for x in facts):
                        val = 'new' if self.reads == 'back' else 'x'
                    if ('done', 'newfirst') in facts and ('done', 'wasked', w) not in facts:
                        val = 'new'
                    elif ('done', 'first?') in facts and ('done', 'wasked', w) not in facts:
                        val = 'x'
                elif self.fresh(gw[0][2]):
                    val = 'new'
            k = 'pre' if new_o else 'synced'
            if new_o or self.group(o):
                add.add(('done', k, val))
            else:
                add.add(('done', 'other'))
        elif a['ek'] == 'call' and a['n'] == 'getWeight':
            if not any(x[:2] == ('done', 'join') for x in facts):
                add.add(('done', 'wasked', a['r']))
        elif a['ek'] in ('opq',):
            add.add(('done', 'other'))
        return (facts - rem) | add, may


def joins(p, m, rep, el):
    any_ = False
    reads = None
    for f in p.fns(CT + '::getWeight'):
        if f.get('body'):
            for n, c in Q.walk(S.Sym(p, keep=KEEP).build(f)):
                if n.k == 'ret' and n.a['v'][0] == 'call' and n.a['v'][1] == 'getWeight':
                    o = strip(n.a['v'][2])
                    reads = 'front' if o[0] == 'ix' and o[2] == S.lit(0) else 'back' if o[0] == 'back' else None
    for f in m.entries():
        if f.get('cst') or f.get('ctor') or not f.get('body'):
            continue
        if not any('FactorExponential' in (a.get('t') or '') for a in f['params']):
            continue
        pts = [a for a in f['params'] if 'FactorExponential' in (a.get('t') or '')]
        t = S.Sym(p, keep=KEEP | {x['n'] for x in m.entries() if x['n'] != f['n']}).build(f)
        c = Join(m, el)
        c.reads = reads
        c.par = pts[0]['n']
        ex = F.Flow(c, cap=1000).run(t)
        if not c.sites:
            continue
        any_ = True
        rep.fn(f)
        alone(rep, m, f, c, t)
        v = True
        why = ''
        for facts, may in ex:
            D = {x[1:] for x in facts if x[0] == 'done'}
            if not any(d[0] == 'join' for d in D):
                continue
            vals = {d[1] for d in D if d[0] in ('synced', 'pre')}
            if 'new' in vals:
                v, why = False, 'the group takes the weight of the joining factor'
                break
            if 'group' in vals:
                continue
            if vals or ('other',) in D:
                v = None
            else:
                v, why = False, 'a path joins without sharing the weight'
                break
        for s in sorted(c.sites, key=repr):
            rep.judge(v, 'R2', s, '%s: the joining factor takes the weight of the group%s' % (f['q'], ' (%s)' % why if why else ''))
    if not any_:
        rep.missing('joining of a group')


def alone(rep, m, f, c, t):
    """a tuner becomes one of its own only if no group is named"""
    gp = [('p', i, a['n']) for i, a in enumerate(f['params']) if 'optional' in (a.get('t') or '')]
    if len(gp) != 1:
        return
    G = ('isset', gp[0])
    for n, ctx in Q.walk(t):
        if not (n.k == 'ev' and n.a['ek'] == 'mut' and n.a['op'] in ('push', 'insert') and m.role(n.a['C']) == 'tuners'):
            continue
        w = n.a.get('v') or n.a.get('key')
        if w is None or not c.fresh(w):
            continue
        known = True
        at = set()

        def scan(x):
            nonlocal known
            if x[0] == '!':
                return scan(x[1])
            if x[0] in ('&&', '||'):
                scan(x[1])
                return scan(x[2])
            if x == G or x[0] == 'bool':
                return
            at.add(x)
            if not (x[0] == 'rel' and all(y[0] == 'size' or S.is_num(y) for y in x[2:4])):
                known = False
        cs = Q.conds(ctx)
        for x in cs:
            scan(x[1])
        if len(at) > 5:
            rep.und('R2', n.at, f['q'] + ': alone')
            continue
        at = sorted(at, key=repr)

        def val(x, env):
            if x[0] == '!':
                return not val(x[1], env)
            if x[0] == '&&':
                return val(x[1], env) and val(x[2], env)
            if x[0] == '||':
                return val(x[1], env) or val(x[2], env)
            return x[1] if x[0] == 'bool' else env[x]
        sat = False
        for bits in range(1 << len(at)):
            env = {k: bool(bits >> i & 1) for i, k in enumerate(at)}
            env[G] = True
            if all(val(x[1], env) == x[2] for x in cs):
                sat = True
        rep.judge(True if not sat else False if known else None, 'R2', n.at, f['q'] + ': a factor is tuned alone only if no group is named for it')


def clusters(p, m, rep, el):
    for f in p.fns('EFG::train::FactorsTunableGetter::getTunableClusters'):
        if not f.get('body'):
            continue
        rep.fn(f)
        evs = Q.walk(S.Sym(p).build(f))
        at = (f['file'], f['l'])
        what = f['q'] + ': all the factors sharing a weight are listed'
        elems = lambda t: t[0] == 'mem' and t[2] == el
        pu = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['op'] == 'push' and isinstance(n.a.get('v'), tuple) and S.any_t(n.a['v'], elems)]
        opq = any(n.k == 'ev' and n.a['ek'] == 'opq' for n, c in evs)
        if not pu or opq:
            rep.und('R7', at, what)
            continue
        vs = []
        for n, ctx in pu:
            x = S.all_t(n.a['v'], lambda y: y[0] in ('ix', 'back') and elems(y[1]))
            if len(x) != 1:
                vs.append(None)
            elif x[0][0] == 'back' or S.is_num(x[0][2]):
                vs.append('one')
            else:
                lp = Q.loop_of(ctx, x[0][2]) if x[0][2][0] == 'i' else None
                v = Q.covers(lp, lambda h: h == ('size', x[0][1])) if lp else None
                inner = ctx[ctx.index(lp):] if lp else ()
                vs.append(None if v and any(c[0] == 'if' for c in inner) else v)
        if all(v == 'one' for v in vs):
            v = False
        elif len(vs) == 1:
            v = vs[0]
        else:
            v = None
        rep.judge(v, 'R7', pu[0][0].at, what)


def finder(p, m, rep, el):
    for f in p.funcs.values():
        if f.get('n') != 'findTuner' or not f.get('body'):
            continue
        rep.fn(f)
        t = S.Sym(p, keep=KEEP - {'findTuner'}).build(f)
        par = ('p', 0, f['params'][0]['n'])
        rets = [n for n, c in Q.walk(t) if n.k == 'ret']
        for n in rets:
            v = n.a['v']
            fi = S.all_t(v, lambda x: x[0] in ('findi', 'pick'))
            if len(fi) != 1:
                rep.und('R3', n.at, f['q'] + ': which tuner')
                continue
            q, c = (fi[0][2], fi[0][3]) if fi[0][0] == 'findi' else (fi[0][1], fi[0][2])
            full = q[2] == S.lit(0) and q[3][0] == 'size' and m.role(q[3][1]) == 'tuners' and q[4] in (1, S.lit(1))
            rep.judge(True if full else False if S.is_num(q[2]) and q[2][1] else None, 'R3', n.at, f['q'] + ': all the tuners are considered')
            eqs = S.all_t(c, lambda x: x[0] == 'rel' and x[1] == '==' and (S.has(x[2], par) or S.has(x[3], par)))
            eqs = [x for x in eqs if par in (x[2], x[3]) or x[2] == ('deref', par) or x[3] == ('deref', par)]
            inner = S.all_t(c, lambda x: x[0] == 'anyi')
            hasel = [x for x in inner if S.any_t(x[2], lambda y: y[0] == 'mem' and y[2] == el)]
            unk = S.any_t(c, lambda x: x[0] in ('unk', 'phi', 'call'))
            rep.judge(True if eqs else None, 'R3', n.at, f['q'] + ': the variables have to be those of the group')
            if hasel:
                x = hasel[0]
                k = x[1]
                v2 = None
                if k[2] == S.lit(0) and k[3][0] == 'size':
                    v2 = True
                elif S.is_num(k[2]) and k[2][1] != 0 or k[3][0] == '-':
                    v2 = False
                rep.judge(v2, 'R3', n.at, f['q'] + ': all the elements of a composite are considered')
            elif S.any_t(c, lambda y: y[0] == 'mem' and y[2] == el) and not unk:
                rep.bad('R3', n.at, f['q'] + ': all the elements of a composite are considered')
            else:
                rep.judge(None if unk else False, 'R3', n.at, f['q'] + ': the elements of composites are considered')


def absorbing(p, m, rep):
    names = {'addTunableFactor', 'copyTunableFactor'}
    n_ = 0
    for f in m.entries():
        if f.get('cst') or not f.get('body') or f['n'] in names or not any('FactorsTunableGetter' in (a.get('t') or '') for a in f['params']):
            continue
        t = S.Sym(p, keep=KEEP | names).build(f)
        evs = Q.walk(t)
        calls = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] in names]
        if not calls:
            continue
        n_ += 1
        rep.fn(f)
        for n, ctx in calls:
            a = n.a['args']
            fac = strip(a[0])
            ls = Q.loops(ctx)
            grp = a[1] if len(a) > 1 else ('nullopt',)
            grp = grp[1] if grp[0] in ('some', 'opt') and len(grp) > 1 else grp
            isnull = grp[0] == 'nullopt'
            if fac[0] == 'alt':
                rep.judge(True if isnull else None, 'R4', n.at, f['q'] + ': a factor that is alone is inserted alone')
            elif fac[0] == 'ix' and S.is_num(fac[2]):
                rep.judge(True if isnull and fac[2][1] == 0 else None, 'R4', n.at, f['q'] + ': the first factor of a cluster is inserted alone')
            elif fac[0] == 'ix' and fac[2][0] == 'i':
                lp = Q.loop_of(ctx, fac[2])
                if isnull:
                    # alone although it is one of a cluster
                    later = lp and S.is_num(lp[1].a['lo']) and lp[1].a['lo'] != S.lit(0)
                    rep.judge(None if not later and [c for c in Q.conds(ctx[ctx.index(lp):] if lp else ()) if c[1][0] != 'p'] else False, 'R4', n.at, f['q'] + ': the other factors of a cluster join it')
                    continue
                ok = S.has(grp, fac[1])
                g = [x for x in S.all_t(grp, lambda x: x[0] == 'ix' and x[1] == fac[1])]
                if ok and g and any(x[2] == fac[2] for x in g):
                    rep.bad('R4', n.at, f['q'] + ': the group is the one of a factor that is already there')
                else:
                    rep.judge(True if ok and g else None, 'R4', n.at, f['q'] + ': the other factors of a cluster join it')
                if lp:
                    lo, hi = lp[1].a['lo'], lp[1].a['hi']
                    v = None
                    if not lp[2] and lo is not None and S.is_num(lo) and lp[1].a['step'] in (1, S.lit(1)):
                        if hi == ('size', fac[1]):
                            v = lo[1] <= 1
                        elif hi[0] == '-' and hi[1] == ('size', fac[1]):
                            v = False
                    if Q.conds(ctx[ctx.index(lp):]) and v and lo[1] == 1:
                        cs = [c for c in Q.conds(ctx[ctx.index(lp):]) if c[1][0] != 'p']
                        if cs:
                            v = None
                    rep.judge(v, 'R4', n.at, f['q'] + ': all the factors of the cluster are inserted')
            else:
                rep.und('R4', n.at, f['q'] + ': which factor')
    if not n_:
        rep.missing('absorption of clusters')


def replacing(p, m, rep, el):
    """tuners made to replace others are for the same factor"""
    for f in p.funcs.values():
        if not f.get('body') or not f['params'] or not any('BaseTuner' in (a.get('t') or '') for a in f['params']) or f.get('cls', '').startswith('EFG::train'):
            continue
        if 'unique_ptr' not in (f['params'][0].get('t') or '') and not any('unique_ptr' in (a.get('t') or '') for a in f['params']):
            continue
        con = [('p', i, a['n']) for i, a in enumerate(f['params']) if 'unique_ptr' in (a.get('t') or '')][0]
        sub = [('p', i, a['n']) for i, a in enumerate(f['params']) if 'BaseTuner' in (a.get('t') or '')][0]
        t = S.Sym(p, keep=KEEP).build(f)
        rep.fn(f)
        for n, ctx in Q.walk(t):
            if n.k == 'ev' and n.a['ek'] == 'set' and S.has(n.a['lv'], con) and isinstance(n.a['v'], tuple):
                mk = S.all_t(n.a['v'], lambda x: x[0] == 'make' and x[1].endswith('Tuner'))
                for x in mk:
                    fac = [y for y in x[2] if y[0] == 'mem' and y[2] == 'factor' or S.has(y, sub) and y[0] == 'mem']
                    oth = [y for y in x[2] if S.any_t(y, lambda z: z[0] in ('make',) and 'FactorExponential' in str(z[1]))]
                    rep.judge(False if oth else True if any(S.has(y, sub) for y in fac) else None, 'R5', n.at, f['q'] + ': the tuner that replaces another is for the same factor')
        # callers: element by element
        for g in p.funcs.values():
            if not g.get('body') or not Q.calls(g, f['c']):
                continue
            tg = S.Sym(p, keep=KEEP | {f['n'], 'absorbConstFactors', 'absorbTunableClusters', 'setEvidence'}).build(g)
            hit = []
            for n, ctx in Q.walk(tg):
                if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == f['n'] and len(n.a['args']) == 2:
                    a, b = strip(n.a['args'][con[1]]), n.a['args'][sub[1]]
                    same = S.has(b, a)
                    rep.judge(True if same else None, 'R5', n.at, g['q'] + ': the place and the tuner it holds')
                    if a[0] == 'ix' and a[1][0] == 'mem' and a[1][2] == el:
                        hit.append('el')
                        lp = Q.loop_of(ctx, a[2]) if a[2][0] == 'i' else None
                        rep.judge(Q.covers(lp, lambda h: h == ('size', a[1])) if lp else False if S.is_num(a[2]) else None, 'R5', n.at, g['q'] + ': every element of a composite is considered')
                    elif m.role(a) == 'tuners[]':
                        hit.append('one')
                        lp = Q.loop_of(ctx, a[2]) if a[0] == 'ix' and a[2][0] == 'i' else None
                        rep.judge(Q.covers(lp, lambda h: h[0] == 'size' and m.role(h[1]) == 'tuners') if lp else None, 'R5', n.at, g['q'] + ': every tuner is considered')
            if hit:
                rep.fn(g)
                rep.judge('el' in hit or None, 'R5', (g['file'], g['l']), g['q'] + ': the elements of composites are considered')


def forwarding(p, rep):
    for q, nm in (('EFG::train::BaseTuner', 'setWeight'), ('EFG::train::BaseTuner', 'getWeight'), ('EFG::factor::FactorExponential', 'setWeight'), ('EFG::factor::FactorExponential', 'getWeight')):
        for f in p.fns(q + '::' + nm):
            if not f.get('body'):
                continue
            rep.fn(f)
            t = S.Sym(p, keep={'setWeight', 'getWeight'}).build(f)
            evs = Q.walk(t)
            at = (f['file'], f['l'])
            if nm == 'setWeight':
                par = ('p', 0, f['params'][0]['n'])
                cs = [(n, c) for n, c in evs if n.k == 'ev' and (n.a['ek'] == 'call' and n.a['n'] == 'setWeight' or n.a['ek'] == 'set' and n.a['v'] == par)]
                if not cs:
                    rep.judge(False if not any(n.k == 'ev' and n.a['ek'] in ('call', 'opq', 'set') for n, _ in evs) else None, 'R6', at, f['q'] + ': the weight is passed on')
                for n, c in cs:
                    v = n.a['args'][0] == par if n.a['ek'] == 'call' else True
                    if not v and n.a['args'][0][0] in ('call', 'unk'):
                        v = None
                    if Q.conds(c):
                        v = None
                        if same_weight(Q.conds(c), par):
                            v = True
                    rep.judge(v, 'R6', n.at, f['q'] + ': the weight is passed on as it is')
            else:
                for n, c in evs:
                    if n.k == 'ret':
                        v = n.a['v']
                        rep.judge(True if v[0] in ('call', 'mem') else False if S.is_num(v) else None, 'R6', n.at, f['q'] + ': the weight that was set')


def same_weight(cs, par):
    return all(c[1][0] in ('rel', '!') and S.has(c[1], par) and S.any_t(c[1], lambda x: x[0] == 'call' and x[1] == 'getWeight' or x[0] == 'mem') for c in cs)
