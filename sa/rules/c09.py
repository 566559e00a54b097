"""The pool runs every task exactly once, and returns after the last one; its threads end with it
(strided loops as residue classes; order of atomic operations; declared types of shared fields)."""
import sym as S
import seqs as Q
import prog as P

PL = 'EFG::strct::Pool'
WK = PL + '::Worker'
ASSUME = ['tasks do not throw', 'a pool is used after its constructor has completed']
RELAX = ('memory_order_relaxed', 'memory_order::relaxed')


def exclusive(p, rep):
    N = dict(slot=fld(p, WK, lambda t: t.startswith('std::atomic') and '*' in t), workers=fld(p, PL, lambda t: 'Worker' in t and 'vector' in t or 'list' in t))
    owner = PL + '::Context' if p.record(PL + '::Context') else PL
    N['size'] = fld(p, owner, lambda t: 'unsigned' in t or t == 'std::size_t')
    for f in p.fns(PL + '::parallelFor'):
        if f.get('body'):
            lock(p, rep, f, N)
            caller(p, rep.sub({'R1': 'R6', 'R2': 'R6', 'R5': 'R6'}) if hasattr(rep, 'sub') else rep, f, N)


def fld(p, rec, test, default=None):
    r = p.record(rec)
    c = [x['n'] for x in (r or {'f': ()})['f'] if test(x['t'])]
    return c[0] if c else default


def run(p, rep):
    rep.rule('R1', 'each task belongs to exactly one thread: thread t of n runs the tasks t, t+n, t+2n, ..; the caller is 0, the workers are 1..n-1, n is the size of the pool')
    rep.rule('R2', 'every worker is handed the tasks, and the call returns only once all of them are seen to have finished')
    rep.rule('R3', 'a worker marks the tasks as finished after it has run its own, not before, each time it was handed some')
    rep.rule('R4', 'the destructor tells all the threads to stop before waiting for each of them')
    rep.rule('R5', 'what two threads access is atomic, with ordering, or is written only before the threads start; what a thread reads is initialised before it starts')
    rep.rule('R6', 'one caller at a time: the calls exclude each other for their whole duration')
    N = dict(slot=fld(p, WK, lambda t: t.startswith('std::atomic') and '*' in t), thread=fld(p, WK, lambda t: t in ('std::thread', 'std::jthread')),
             workers=fld(p, PL, lambda t: 'Worker' in t and 'vector' in t or 'list' in t))
    owner = PL + '::Context' if p.record(PL + '::Context') else PL
    N['life'] = fld(p, owner, lambda t: t in ('std::atomic<bool>', 'std::atomic_bool'))
    N['size'] = fld(p, owner, lambda t: 'unsigned' in t or t == 'std::size_t')
    ctor = [f for f in p.fns(PL + '::Pool') if f.get('body') and not f.get('implicit')]
    wctor = [f for f in p.fns(WK + '::Worker') if f.get('body') is not None and not f.get('implicit')]
    par = [f for f in p.fns(PL + '::parallelFor') if f.get('body')]
    dt = [f for f in p.fns(PL + '::~Pool') if f.get('body')]
    if not (ctor and par and dt and wctor):
        rep.missing('pool')
        return
    types(p, rep, N, owner)
    ids = constructor(p, rep, ctor[0], N)
    worker(p, rep, wctor[0], N)
    caller(p, rep, par[0], N)
    destructor(p, rep, dt[0], N)
    lock(p, rep, par[0], N)
    frozen(p, rep, N)


def types(p, rep, N, owner):
    r = p.record(WK)
    at = (r['file'], r['l'])
    slots = [x for x in r['f'] if 'Task' in x['t'] or 'function' in x['t']]
    for x in slots:
        rep.judge(x['t'].startswith('std::atomic') or None if '*' not in x['t'] else x['t'].startswith('std::atomic'), 'R5', (r['file'], x['l']),
                  'Worker::%s, written by the caller and by the worker, is atomic' % x['n'])
    names = [x['n'] for x in r['f']]
    if N['thread'] in names:
        i = names.index(N['thread'])
        after = [x['n'] for x in r['f'][i + 1:]]
        used = set()
        for f in p.fns(WK + '::Worker'):
            if not f.get('body'):
                continue

            def v(n):
                if n.get('k') == 'mem' and n.get('f') in after:
                    used.add(n['f'])
            for it in f.get('inits') or ():
                if it.get('f') == N['thread']:
                    P.walk(it, v)
        rep.judge(not used, 'R5', (r['file'], r['f'][i]['l']), 'the members a thread reads are initialised before the thread%s' % (' (not: %s)' % ', '.join(sorted(used)) if used else ''))
    o = p.record(owner)
    for x in o['f']:
        if 'bool' in x['t']:
            rep.judge(x['t'] in ('std::atomic<bool>', 'std::atomic_bool') or 'atomic' in x['t'], 'R5', (o['file'], x['l']), 'the flag %s, written while the threads read it, is atomic' % x['n'])
            ini = x.get('init')
            if ini is not None:
                lits = []
                P.walk(ini, lambda n: lits.append(n.get('v')) if n.get('k') == 'lit' else None)


def distinct(w, ls, par):
    """numbers given by an expression of the counter and of the size: one for each of 1..size-1?"""
    L = ls[0][1]
    for x in w[2]:
        if not S.has(x, L.a['i']):
            continue

        def ev(t, i, n):
            if t == L.a['i']:
                return i
            if t == par:
                return n
            if S.is_num(t):
                return t[1]
            if t[0] in ('+', '-', '*', '/', '%') and len(t) == 3:
                a, b = ev(t[1], i, n), ev(t[2], i, n)
                if a is None or b is None or t[0] in '/%' and b == 0:
                    return None
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a // b, '%': lambda: a % b}[t[0]]()
            return None
        for n in range(2, 33):
            lo, hi = (ev(y, 0, n) if y is not None else None for y in (L.a['lo'], L.a['hi']))
            if lo is None or hi is None or L.a['step'] != 1:
                return None
            v = [ev(x, i, n) for i in range(lo, hi)]
            if None in v:
                return None
            if sorted(v) != list(range(1, n)):
                return False
        return None
    return None


def constructor(p, rep, f, N):
    rep.fn(f)
    t = S.Sym(p).build(f)
    evs = Q.walk(t)
    par = ('p', 0, f['params'][0]['n'])
    mk = [(i, n, c) for i, (n, c) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['op'] in ('push', 'insert') and isinstance(n.a.get('v'), tuple)
          and S.any_t(n.a['v'], lambda x: x[0] in ('make', 'ctor') and x[1] == WK)]
    sz = [(i, n) for i, (n, c) in enumerate(evs) if n.k == 'ev' and n.a['ek'] in ('set',) and n.a['lv'][0] == 'mem' and n.a['lv'][2] == N['size'] and not n.a.get('init')
          or n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'mem' and n.a['lv'][2] == N['size'] and n.a.get('init') and S.has(n.a['v'], par)]
    at = (f['file'], f['l'])
    if sz:
        for i, n in sz:
            rep.judge(True if n.a['v'] == par else False if Q.arith(n.a['v']) or n.a['v'][0] in ('+', '-', '*', '/') and n.a['v'][1] == par and S.is_num(n.a['v'][2]) else None, 'R1', n.at, f['q'] + ': the size of the pool is the one that was asked for')
            if mk:
                rep.judge(i < mk[0][0], 'R5', n.at, f['q'] + ': the size is set before the threads start')
    else:
        agg = [n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and isinstance(n.a.get('v'), tuple) and S.has(n.a['v'], par)]
        rep.judge(None if agg else False, 'R1', at, f['q'] + ': the size of the pool is the one that was asked for')
    if not mk:
        rep.und('R1', at, f['q'] + ': workers')
    for i, n, ctx in mk:
        w = S.all_t(n.a['v'], lambda x: x[0] in ('make', 'ctor') and x[1] == WK)[0]
        ids = [x for x in w[2] if Q.arith(x)]
        ls = Q.loops(ctx)
        if len(ids) != 1 or len(ls) != 1 or ls[0][1].a['lo'] is None:
            rep.judge(distinct(w, ls, par) if len(ls) == 1 else None, 'R1', n.at, f['q'] + ': numbers of the workers')
            continue
        L = ls[0][1]
        lo, hi, st, d = L.a['lo'], L.a['hi'], L.a['step'], ids[0]
        off = offset(d, L.a['i'])
        lo, hi = shift(lo, off), shift(hi, off)
        v = None
        if off is not None and st in (1, S.lit(1)) and not ls[0][2] and not Q.conds(ctx):
            if lo == S.lit(1) and hi == par:
                v = True
            elif S.is_num(lo) and (hi == par or hi[0] in ('+', '-') and hi[1] == par):
                v = False
        rep.judge(v, 'R1', n.at, f['q'] + ': the workers are numbered 1 .. size - 1')


def offset(d, i):
    if d == i:
        return 0
    if d[0] in ('+', '-') and d[1] == i and S.is_num(d[2]):
        return d[2][1] if d[0] == '+' else -d[2][1]
    return None


def shift(t, o):
    if not o:
        return t
    if S.is_num(t):
        return S.lit(t[1] + o)
    if t[0] in ('+', '-') and S.is_num(t[2]):
        k = (t[2][1] if t[0] == '+' else -t[2][1]) + o
        t = t[1]
        return t if k == 0 else ('+', t, S.lit(k)) if k > 0 else ('-', t, S.lit(-k))
    return ('+', t, S.lit(o)) if o > 0 else ('-', t, S.lit(-o))


def strided(rep, f, evs, tasks, me, N, who):
    """calls of the tasks: positions me, me + n, .."""
    cs = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'operator()' and n.a.get('o') and n.a['o'][0] == 'ix' and tasks(n.a['o'][1])]
    for n, ctx in cs:
        i = n.a['o'][2]
        lp = Q.loop_of(ctx, i) if i[0] == 'i' else None
        if not lp or lp[1].a['lo'] is None:
            rep.und('R1', n.at, '%s: tasks run by %s' % (f['q'], who))
            continue
        L = lp[1]
        issz = lambda t: t[0] == 'mem' and t[2] == N['size']
        st = L.a['step']
        st = S.lit(st) if isinstance(st, int) else st
        v = None
        cc = [c for c in Q.conds(ctx) if not (c[1][0] == 'isset' and tasks(c[1][1]))]
        W = S.mem(('this',), N['workers'])
        if cc:
            # a particular case (no workers, few tasks): what is not run here is run elsewhere or is not
            sized = [c for c in cc if S.any_t(c[1], lambda x: x[0] == 'size' and tasks(x[1])) and not nothing_to_do(c, tasks)]
            free = [c for c in cc if S.any_t(c[1], lambda x: x == W or x[0] == 'mem' and x[2] == N['size'])]
            v = False if sized and len(cs) == 1 and not lp[2] else None
            if [c for c in cc if nothing_to_do(c, tasks)] == cc:
                cc = []
        if not cc and not lp[2]:
            lo, hi = L.a['lo'], L.a['hi']
            hok = hi[0] == 'size' and tasks(hi[1])
            if lo == me and issz(st) and hok or me is not None and enum(lo, hi, st, tasks, me, issz):
                v = True
            elif (S.is_num(lo) or lo[0] == 'p' or Q.arith(lo) or lo[0] in ('+', '-')) and (issz(st) or S.is_num(st) or st[0] in ('+', '-', 'p', 'size')) \
                    and (hok or hi[0] in ('-', '+') and hi[1][0] == 'size'):
                v = False
            elif me is not None and enum(lo, hi, st, tasks, me, issz) is False:
                v = False
            elif hi[0] == '*' and any(x[0] == '/' and x[1][0] == 'size' for x in hi[1:]):
                v = False
        rep.judge(v, 'R1', n.at, '%s: %s runs the tasks of its own residue class, all of them' % (f['q'], who))
        a = n.a['args'][0] if n.a['args'] else None
        rep.judge(True if a == me else False if a is not None and (S.is_num(a) or a[0] == 'p' or a == i or Q.arith(a)) else None, 'R1', n.at, '%s: the number told to the task is the one of %s' % (f['q'], who))
    return cs


def enum(lo, hi, st, tasks, me, issz):
    """the positions visited, against those of the residue class, for small amounts; None: not understood"""
    class Unknown(Exception):
        pass

    def ev(t, n, k, w):
        if t == me:
            return w
        if S.is_num(t):
            return t[1]
        if t[0] == 'bool':
            return int(t[1])
        if t[0] == 'size' and tasks(t[1]):
            return n
        if issz(t):
            return k
        if t[0] in ('+', '-', '*', '/', '%', 'min', 'max') and len(t) == 3:
            a, b = ev(t[1], n, k, w), ev(t[2], n, k, w)
            if t[0] in '/%' and b == 0:
                raise Unknown
            r = {'+': a + b, '-': a - b, '*': a * b, 'min': min(a, b), 'max': max(a, b)}.get(t[0])
            r = (a // b if t[0] == '/' else a % b) if r is None else r
            if r < 0:
                raise Unknown       # wraps around
            return r
        if t[0] == 'cond':
            return ev(t[2] if ev(t[1], n, k, w) else t[3], n, k, w)
        if t[0] == '!':
            return int(not ev(t[1], n, k, w))
        if t[0] == 'rel':
            a, b = ev(t[2], n, k, w), ev(t[3], n, k, w)
            return int({'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b}[t[1]])
        raise Unknown
    try:
        for k in range(1, 5):
            for n in range(1, 10):
                for w in (range(k) if not S.is_num(me) else [me[1]]):
                    s_ = ev(st, n, k, w)
                    if s_ <= 0:
                        return None
                    if list(range(ev(lo, n, k, w), ev(hi, n, k, w), s_)) != list(range(w, n, k)):
                        return False
    except Unknown:
        return None
    return True


def nothing_to_do(c, tasks):
    """the condition says that there are tasks"""
    t, pol = c[1], c[2]
    while t[0] == '!':
        t, pol = t[1], not pol
    z = lambda x: x[0] == 'size' and tasks(x[1])
    if t[0] == 'rel':
        if t[1] == '==' and z(t[2]) and t[3] == S.lit(0):
            return not pol
        if t[1] in ('!=',) and z(t[2]) and t[3] == S.lit(0) or t[1] == '<' and t[2] == S.lit(0) and z(t[3]):
            return pol
    return False


def order_ok(rep, n, q):
    bad = any(isinstance(x, tuple) and S.any_t(x, lambda y: any(isinstance(z, str) and z.endswith(RELAX) for z in y)) for x in n.a.get('args') or ())
    rep.judge(not bad, 'R5', n.at, q + ': the access orders what was done before it')


def worker(p, rep, f, N):
    rep.fn(f)
    t = S.Sym(p).build(f)
    evs = Q.walk(t)
    inner = [(n, c) for n, c in evs if any(x[0] == 'task' for x in c)]
    at = (f['file'], f['l'])
    if not inner:
        return rep.und('R3', at, f['q'] + ': what the thread does')
    slot = S.mem(('this',), N['slot'])
    isslot = lambda t: t[0] == 'ald' and t[1] == slot or t[0] == 'deref' and t[1][0] == 'ald' and t[1][1] == slot
    me = None
    for i, a in enumerate(f['params']):
        if 'long' in (a.get('t') or '') or 'int' in (a.get('t') or ''):
            me = ('p', i, a['n'])
    cs = strided(rep, f, inner, isslot, me, N, 'a worker')
    if not cs:
        rep.und('R1', at, f['q'] + ': tasks run by a worker')
        return
    for n, c in inner:
        if n.k == 'ev' and n.a['ek'] in ('astore', 'aload') and n.a['lv'] == slot:
            order_ok(rep, n, f['q'])
    stores = [(i, n, c) for i, (n, c) in enumerate(inner) if n.k == 'ev' and n.a['ek'] == 'astore' and n.a['lv'] == slot]
    last = max(Q.pos(inner, n) for n, c in cs)
    nul = [(i, n, c) for i, n, c in stores if n.a['v'] in (('null',), S.NULL)]
    if not stores:
        ex = [n for n, c in inner if n.k == 'ev' and n.a['ek'] == 'call' and S.any_t(n.a.get('o') or ('x',), lambda x: x == slot)]
        rep.judge(None if ex else False, 'R3', at, f['q'] + ': the worker marks the tasks as finished')
        return
    for i, n, c in nul:
        rep.judge(i > last, 'R3', n.at, f['q'] + ': the tasks are marked as finished after they were run')
        # same iteration, and under no more conditions than the tasks
        tl = cs[0][1]
        extra = [x for x in Q.conds(c) if x not in Q.conds(tl)]
        inl = [x for x in Q.loops(c) if x not in Q.loops(tl)]
        plain = extra and all(sizes_only(x[1]) for x in extra) and len(nul) == 1
        given = [x for x in Q.conds(tl) if x not in Q.conds(c) and x[1][0] == 'isset' and x[1][1][0] == 'ald' and x[1][1][1] == slot and x[2]]
        rep.judge(False if given else True if not extra and not inl else None if not inl and extra and not plain else False, 'R3', n.at, f['q'] + ': each time')
    # keeps running while alive
    wl = [x for x in Q.loops(cs[0][1])]
    rep.judge(True if any(S.any_t(x[1].a['c'], lambda y: y[0] == 'ald' and y[1][0] == 'mem' and y[1][2] == N['life']) for x in wl if isinstance(x[1].a.get('c'), tuple)) else None,
              'R4', at, f['q'] + ': a thread goes on until it is told to stop')


def caller(p, rep, f, N):
    rep.fn(f)
    t = S.Sym(p).build(f)
    evs = Q.walk(t)
    at = (f['file'], f['l'])
    par = ('p', 0, f['params'][0]['n'])
    W = S.mem(('this',), N['workers'])
    slotof = lambda l: l[0] == 'mem' and l[2] == N['slot']
    cs = strided(rep, f, evs, lambda t: t == par or t == ('deref', par), S.lit(0), N, 'the caller')
    if not cs:
        rep.und('R1', at, f['q'] + ': tasks run by the caller')
    st = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'astore' and slotof(n.a['lv'])]
    for n, c in evs:
        if n.k == 'ev' and n.a['ek'] in ('astore', 'aload') and slotof(n.a['lv']):
            order_ok(rep, n, f['q'])
    if not st:
        rep.judge(None if any(n.k == 'ev' and n.a['ek'] in ('call', 'opq') and not n.a['n'] == 'operator()' for n, _ in evs) else False, 'R2', at, f['q'] + ': the workers are handed the tasks')
    for n, ctx in st:
        o = n.a['lv'][1]
        while o[0] in ('deref', 'addr'):
            o = o[1]
        lp = Q.loop_of(ctx, o[2]) if o[0] == 'ix' and o[2][0] == 'i' else None
        v = Q.covers(lp, lambda h: h == ('size', W)) if lp else None
        if Q.conds(ctx):
                v = None
        rep.judge(v, 'R2', n.at, f['q'] + ': every worker is handed the tasks')
        rep.judge(True if n.a['v'] == ('addr', par) else None, 'R2', n.at, f['q'] + ': the tasks handed are those of the call')
    # wait
    stores = [Q.pos(evs, n) for n, c in st]
    loads = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'aload' and slotof(n.a['lv']) and Q.pos(evs, n) > max(stores or [0])]
    ws = wait_loops(t)
    inc = any(isinstance(L.a.get('c'), tuple) and S.any_t(L.a['c'], lambda y: y[0] == 'ald' and slotof(y[1])) for L in ws)
    if not loads and not inc:
        other = any(n.k == 'ev' and n.a['ek'] in ('call', 'opq', 'aload') and n.a.get('n') not in ('operator()',) for n, _ in evs)
        rep.judge(None if other else False, 'R2', at, f['q'] + ': the call waits for the workers')
        return
    v = None
    for L in ws:
        c = L.a.get('c')
        if c == S.FALSE and any(z[0] == 'loop' and z[1] is L for n, cx in loads for z in cx) and not Q.leaves(L.a['body']):
            v = False if v is None else v
        if isinstance(c, tuple) and S.any_t(c, lambda y: y[0] == 'ald' and slotof(y[1])):
            an = S.all_t(c, lambda y: y[0] == 'anyi')
            r = None
            if c[0] == 'out' and len(c) >= 5 and c[4][0] == 'isset' and not S.has(c[4], ('phi', c[1])) and not S.any_t(c[4], lambda y: y[0] == 'phi'):
                r = False               # what the last one says
            if an and c == an[0]:
                q, x = an[0][1], an[0][2]
                if x[0] == 'isset' and x[1][0] == 'ald':
                    if q[2] == S.lit(0) and q[3] == ('size', W) and q[4] in (1, S.lit(1)):
                        r = True
                    elif S.is_num(q[2]) and q[2][1] or q[3][0] == '-':
                        r = False
                elif x[0] == '!':
                    r = False
            elif not an and L.a.get('inall') is not None:
                r = L.a['inall']
            elif c[0] == 'isset' and c[1][0] == 'ald':
                # waiting for one worker: inside a loop on all of them
                o = c[1][1][1]
                while o[0] in ('deref', 'addr'):
                    o = o[1]
                ctx = [cx for n2, cx in evs if n2.k == 'ev' and n2.a['ek'] == 'aload' and any(z[0] == 'loop' and z[1] is L for z in cx)]
                lp = Q.loop_of(ctx[0], o[2]) if ctx and o[0] == 'ix' and o[2][0] == 'i' else None
                r = Q.covers(lp, lambda h: h == ('size', W)) if lp else False if o[0] in ('back',) or o[0] == 'ix' and S.is_num(o[2]) else None
            v = r if v is None else v
            if r is True:
                v = True
    if not ws:
        v = False if not any(n.k == 'ev' and n.a['ek'] in ('opq',) for n, _ in evs) else None
    rep.judge(v, 'R2', at, f['q'] + ': the call returns only once every worker has finished')
    # returns between handing the tasks and waiting
    before = [Q.pos(evs, n) for n, c in loads]
    for i, (n, c) in enumerate(evs):
        if n.k != 'ret' or not st or i < max(stores) or any(x[0] == 'task' for x in c) or before and i > min(before):
            continue
        mine = [x for x in Q.conds(c) if all(x not in y for _, y in st)]
        if mine and all(sizes_only(x[1]) for x in mine) and any(S.any_t(x[1], lambda y: y == ('size', par)) for x in mine):
            rep.bad('R2', n.at, f['q'] + ': it returns without waiting')


def sizes_only(c):
    """a comparison of amounts"""
    if c[0] == '!':
        return sizes_only(c[1])
    if c[0] in ('&&', '||'):
        return sizes_only(c[1]) and sizes_only(c[2])
    am = lambda t: S.is_num(t) or t[0] in ('size', 'p') or t[0] == 'mem' or t[0] in ('+', '-', '*', '/', '%') and all(am(x) for x in t[1:] if isinstance(x, tuple))
    return c[0] == 'rel' and am(c[2]) and am(c[3])


def wait_loops(n, out=None):
    if out is None:
        out = []
    k = n.k
    if k == 'seq':
        for x in n.a['s']:
            wait_loops(x, out)
    elif k == 'if':
        wait_loops(n.a['a'], out)
        wait_loops(n.a['b'], out)
    elif k == 'loop':
        if n.a['lo'] is None:
            out.append(n)
        wait_loops(n.a['body'], out)
    elif k == 'scope':
        wait_loops(n.a['b'], out)
    elif k == 'try':
        wait_loops(n.a['b'], out)
    return out


def destructor(p, rep, f, N):
    rep.fn(f)
    t = S.Sym(p).build(f)
    evs = Q.walk(t)
    at = (f['file'], f['l'])
    W = S.mem(('this',), N['workers'])
    stop = [i for i, (n, c) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'astore' and n.a['lv'][0] == 'mem' and n.a['lv'][2] == N['life'] and n.a['v'] == S.FALSE and not Q.conds(c)]
    joins = [(i, n, c) for i, (n, c) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'join']
    r = p.record(WK)
    jt = any(x['t'] == 'std::jthread' for x in r['f'])
    hidden = [f2 for f2 in p.fns(WK + '::~Worker') if f2.get('body') and not f2.get('implicit')]
    if not joins:
        rep.judge(None if jt or hidden else False, 'R4', at, f['q'] + ': every thread is waited for')
    if not stop:
        rep.judge(None if hidden or jt else False, 'R4', at, f['q'] + ': the threads are told to stop')
    for i, n, ctx in joins:
        if stop:
            rep.judge(min(stop) < i, 'R4', n.at, f['q'] + ': the threads are told to stop before they are waited for')
        o = n.a['o']
        o = o[1] if o[0] == 'mem' else o
        while o[0] in ('deref', 'addr'):
            o = o[1]
        lp = Q.loop_of(ctx, o[2]) if o[0] == 'ix' and o[2][0] == 'i' else None
        v = Q.covers(lp, lambda h: h == ('size', W)) if lp else None
        cs = [c for c in Q.conds(ctx) if not (c[1][0] == 'call' and c[1][1] == 'joinable')]
        if cs:
            v = None
        rep.judge(v, 'R4', n.at, f['q'] + ': every thread is waited for')
    for n, c in evs:
        if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'detach':
            rep.bad('R4', n.at, f['q'] + ': a thread is left alone while it uses the pool')


LOCKS = ('std::scoped_lock', 'std::lock_guard', 'std::unique_lock')


def lock(p, rep, f, N):
    """the block of the lock contains every access to the slots"""
    locks = []
    acc = []

    def walk(n, blocks):
        if isinstance(n, list):
            for x in n:
                walk(x, blocks)
            return
        if not isinstance(n, dict):
            return
        if n.get('k') == 'decl':
            for v in n['v']:
                if any((v.get('t') or '').startswith(l) for l in LOCKS):
                    locks.append((blocks, n.get('l'), v))
        if n.get('k') == 'call' and (n.get('q') or '').startswith('std::atomic') or n.get('k') == 'call' and 'process' in (n.get('q') or ''):
            acc.append((blocks, n.get('l')))
        b2 = blocks + (id(n),) if n.get('k') in ('block',) else blocks
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                walk(v, b2)
    walk(f['body'], ())
    at = (f['file'], f['l'])
    r = p.record(PL)
    mx = [x for x in r['f'] if 'mutex' in x['t']]
    if not mx:
        return rep.und('R6', at, 'exclusion of the calls')
    if not locks:
        used = []
        P.walk(f['body'], lambda n: used.append(n) if n.get('k') == 'mem' and n.get('f') == mx[0]['n'] else None)
        return rep.judge(None if used else False, 'R6', at, f['q'] + ': the calls exclude each other')
    bl, l, v = locks[0]
    deferred = []
    P.walk(v, lambda n: deferred.append(n) if n.get('n') in ('defer_lock', 'try_to_lock') else None)
    un = []
    P.walk(f['body'], lambda n: un.append(n.get('l') or 0) if n.get('k') == 'call' and (n.get('n') == 'unlock' or (n.get('q') or '').endswith('::unlock')) else None)
    if un and not deferred:
        late = [l2 for _, l2 in acc if l2 and l2 > min(un)]
        return rep.judge(False if late else None, 'R6', (f['file'], min(un)), f['q'] + ': the exclusion lasts until the end of the call')
    good = all(b[:len(bl)] == bl for b, _ in acc) and not deferred
    rep.judge(good if not deferred else None, 'R6', (f['file'], l), f['q'] + ': the exclusion lasts until the end of the call')


def frozen(p, rep, N):
    """the size of the pool is written by its constructor only"""
    for f in p.funcs.values():
        if not f.get('body') or not Q.touches(f, N['size']):
            continue
        if f['q'] == PL + '::Pool' or not f['q'].startswith('EFG::strct::'):
            continue
        t = S.Sym(p).build(f)
        for n, c in Q.walk(t):
            if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'mem' and n.a['lv'][2] == N['size'] and S.any_t(n.a['lv'], lambda x: x[0] == 'mem' and x[2] != N['size']) \
                    and not n.a.get('init'):
                rep.bad('R5', n.at, f['q'] + ': the size of the pool, read by the threads, is not written after they start')
