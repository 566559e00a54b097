"""Tasks that run at the same time never interfere (effects of every task; what the schedulers put in one batch; what is
shared by static storage or by mutable members)."""
import sym as S
import seqs as Q
import cg as G
import prog as P
import c09
import ctypes_ as T

ST = 'EFG::strct::'
KEEP = {'getProbabilities', 'parallelFor', 'diff', 'sampleFromDiscrete', 'propagateBelief', 'resetBelief', 'removeAllEvidences', 'setEvidence', 'getGradientAlpha', 'getGradientBeta'}
ASSUME = ['one thread runs the tasks of one batch with one thread id (C09)', 'the nodes and connections do not change while a batch runs']
SLOTS = {'connection': 'dependencies', 'value_in_combination': 'dynamic_dependencies'}
SHARED = ('sender', 'dependencies', 'dynamic_dependencies', 'static_dependencies', 'factor')
CONSTF = {'getProbabilities', 'diff', 'max', 'min', 'ceil', 'abs', 'fabs', 'exp', 'sqrt', 'size', 'empty'}


def run(p, rep):
    rep.rule('R1', 'a task writes only its own locals, the slot of the thread that runs it, the element of the position it was made for, or the message or value it is in charge of')
    rep.rule('R2', 'two elements enter the same batch only if neither writes what the other reads: each batch keeps what will change and what should not, and checks both')
    rep.rule('R3', 'all the elements go together in one batch only when a single thread runs it')
    rep.rule('R4', 'each call of the pool gets the tasks of one batch only')
    rep.rule('R6', 'one batch runs at a time: the calls of the pool exclude each other, and return after the last task')
    c09.exclusive(p, rep.sub({}))
    rep.rule('R5', 'the functions reached from a task write no variable with static storage and no mutable member of an object that tasks share')
    roots = []
    for q, f in sorted(((f['q'], f) for f in p.funcs.values()), key=lambda x: (x[0], x[1]['c'])):
        if f.get('body') and Calls(f, 'parallelFor') and not q.startswith(ST + 'Pool::') and f['n'] != 'parallelFor' and 'lambda' not in q:
            roots.append(f)
    seen = set()
    done = 0
    for f in entries(p, roots):
        rep.fn(f)
        evs = Q.walk(S.Sym(p, keep=KEEP - {f['n']}).build(f))
        for n, ctx in evs:
            if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'parallelFor':
                seen.add((P.rel(n.at[0]), n.at[1]))
        done += one(p, rep, f, evs)
    for f in roots:
        for at in sites(f):
            if at not in seen:
                rep.und('R1', at, 'call of the pool outside the analysed operations')
    if not done:
        rep.missing('tasks')
    gradients(p, rep)
    shared(p, rep)


def Calls(f, name):
    hit = []

    def v(n):
        if n.get('k') == 'call' and (n.get('q') or '').split('<')[0].endswith('::' + name):
            hit.append(n)
    P.walk(f.get('body'), v)
    return bool(hit)


def sites(f):
    hit = []

    def v(n):
        if n.get('k') == 'call' and (n.get('q') or '').split('<')[0].endswith('::parallelFor'):
            hit.append((P.rel(f['file']), n.get('l')))
    P.walk(f.get('body'), v)
    return hit


def entries(p, roots):
    """the outermost operations that contain the calls"""
    g = G.CG(p)
    names = [('EFG::strct::GibbsSampler::makeSamples'), 'EFG::strct::BeliefAware::propagateBelief', 'EFG::strct::BaselineLoopyPropagator::propagateBelief',
             'EFG::model::ConditionalRandomField::getWeightsGradient_', 'EFG::model::RandomField::getWeightsGradient_']
    out, cov = [], set()
    for q in names:
        for f in p.fns(q):
            if f.get('body'):
                out.append(f)
                cov |= g.callees(f['c'])
    for f in roots:
        if f['c'] not in cov:
            out.append(f)
    return out


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ('deref', 'addr', 'move', 'listof'):
        t = t[1]
    return t


def path(t):
    """(root, [('f', name) | ('ix', index) | ('at', key)])"""
    out = []
    while True:
        t = strip(t)
        if t[0] == 'mem':
            out.append(('f', t[2]))
            t = t[1]
        elif t[0] == 'ix':
            out.append(('ix', t[2]))
            t = t[1]
        elif t[0] in ('at', 'mapat', 'lookup') and len(t) == 3:
            out.append(('at', t[2]))
            t = t[1]
        elif t[0] in ('back', 'front', 'last', 'first') and len(t) == 2:
            out.append(('ix', S.lit(0)))
            t = t[1]
        elif t[0] == 'new':
            out.append(('new', t[1]))
            t = t[2]
        else:
            break
    return t, out[::-1]


def declared(evs, t):
    for n, ctx in evs:
        if n.k == 'ev' and n.a['ek'] == 'decl' and n.a['lv'][0] == 'var' and n.a['lv'][1] == t[1]:
            return ctx
    return None


def inner(evs, task):
    return [(n, c) for n, c in evs if any(x[0] == 'task' and x[1] is task for x in c)]


def elem_root(t):
    return t[0] in ('var', 'p', 'this', 'phi')


def lv_name(t):
    return S.show(t)[:90]


def one(p, rep, f, evs):
    tasks = [(n, c) for n, c in evs if n.k == 'ev' and n.a.get('task')]
    for n, c in tasks:
        effects(p, rep, f, evs, n, c)
    calls = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'parallelFor']
    gates(p, rep, f, evs, tasks)
    for n, c in calls:
        batch(p, rep, f, evs, n, c, tasks)
    return len(tasks)


def own_index(idx, tctx):
    """is the index that of a loop around the creation of the task"""
    for c in Q.loops(tctx):
        if c[1].a['i'] == idx:
            return True
    return False


def injective(t, tctx):
    """an expression of one index of a loop around the creation of the task: different for different iterations?"""
    ix = S.all_t(t, lambda y: y[0] == 'i') if isinstance(t, tuple) else []
    if len(set(ix)) != 1 or t == ix[0] or not own_index(ix[0], tctx):
        return None

    def ev(y, v):
        if y == ix[0]:
            return v
        if S.is_num(y):
            return y[1]
        if y[0] in ('+', '-', '*', '/', '%') and len(y) == 3:
            a, b = ev(y[1], v), ev(y[2], v)
            if a is None or b is None or y[0] in '/%' and b == 0:
                return None
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a // b, '%': lambda: a % b}[y[0]]()
        return None
    vs = [ev(t, v) for v in range(64)]
    if None in vs:
        return None
    return len(set(vs)) == len(vs)


def locked(evs):
    for n, c in evs:
        if n.k == 'ev' and n.a['ek'] in ('decl', 'ctor'):
            s = str(n.a.get('cls') or '') + str(n.a.get('v') or '')
            if 'lock_guard' in s or 'scoped_lock' in s or 'unique_lock' in s:
                return True
        if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] in ('lock', 'try_lock'):
            return True
    return False


def where(evs, t, task, tctx):
    """own: of this task only; thread: of the thread; slot: name of the field it goes through; shared; None"""
    root, pa = path(t)
    if root[0] in ('ctor', 'make', 'list', 'lit', 'args', 'cond'):
        return 'own', None
    if root[0] == 'call':
        return None, None
    tp = [k for k, x in enumerate(pa) if x[0] == 'ix' and x[1] == ('tp', 0)]
    if tp:
        return 'thread', rebuild(root, pa[:tp[0]])
    if root[0] == 'var':
        if declared(inner(evs, task), root) is not None:
            return 'own', None
        if declared(evs, root) is None:
            return None, None
    if root[0] == 'tp':
        return 'own', None
    if not elem_root(root):
        return None, None
    # the element the task was made for
    last = -1
    for k, x in enumerate(pa):
        inj = injective(x[1], tctx) if x[0] in ('ix', 'at') else None
        if inj is False:
            return 'shared', None
        if inj:
            last = k
        elif x[0] in ('ix', 'at') and own_index(x[1], tctx):
            last = k
        elif x[0] == 'at' and x[1][0] == 'key' and own_index(x[1][2], tctx):
            last = k
    isphi = root[0] == 'phi' and any(c[0] == 'loop' and c[1].a['lid'] == root[1] for c in tctx)
    if last < 0 and not isphi:
        if any(x[0] in ('ix', 'at') and not (Q.arith(x[1]) and not mentions(x[1], ('i',))) for x in pa):
            return None, None
        if root[0] == 'phi':
            return None, None
        return 'shared', None
    rest = [x for x in pa[last + 1:]]
    for x in rest:
        if x[0] == 'f':
            if x[1] in SLOTS:
                return 'slot', x[1]
            if x[1] in SHARED:
                return 'shared', None
            break
    return 'own', None


def rebuild(root, pa):
    t = root
    for k, v in pa:
        t = S.mem(t, v) if k == 'f' else ('ix', t, v) if k == 'ix' else (k, t, v)
    return t


def poolsize(t):
    return isinstance(t, tuple) and t[0] == 'mem' and 'size' in t[2] or t[0] == 'call' and t[1] == 'size'


def resized(evs, C):
    """size given to the container; None: unknown"""
    r = [n.a['key'] for n, c in evs if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['C'] == C and n.a['op'] in ('resize', 'assign')]
    for n, c in evs:
        if n.k == 'ev' and n.a['ek'] == 'decl' and n.a['lv'] == C and n.a.get('v') is not None:
            v = n.a['v']
            if v[0] in ('filled', 'rep', 'sized') and len(v) > 1:
                r.append(v[-1] if v[0] == 'rep' else v[1])
    return r


def effects(p, rep, f, evs, task, tctx):
    ins = inner(evs, task)
    lock = locked(ins)
    sev = 0
    for n, c in ins:
        if n.k != 'ev':
            continue
        a = n.a
        if a['ek'] == 'opq':
            rep.und('R1', n.at, 'not understood inside a task')
            continue
        targets = []
        if a['ek'] == 'set':
            targets.append(a['lv'])
        elif a['ek'] == 'mut':
            targets.append(a['C'])
        elif a['ek'] == 'setv':
            if declared(ins, ('var', a['d'])) is not None or declared(evs, ('var', a['d'])) is None:
                continue
            v = False if not lock else None
            rep.judge(v, 'R1', n.at, 'a task writes %s, which belongs to all the tasks' % a['n'])
            sev += 1
            continue
        elif a['ek'] == 'call' and a.get('o') is not None:
            if a['n'] == 'sampleFromDiscrete' or a['n'] == 'sample':
                targets.append(a['o'])
            elif a['n'] in ('getGradientAlpha', 'getGradientBeta'):
                targets.append(a['o'])
            elif a['n'] in CONSTF or a.get('cst'):
                continue
            else:
                w, _ = where(evs, a['o'], task, tctx)
                if w not in ('own', 'thread'):
                    rep.und('R1', n.at, 'call of %s inside a task' % a['n'])
                continue
        else:
            continue
        for t in targets:
            w, x = where(evs, t, task, tctx)
            sev += 1
            if w == 'own':
                rep.judge(True, 'R1', n.at, 'the task writes only what is its own: %s' % lv_name(t))
            elif w == 'slot':
                rep.judge(True, 'R1', n.at, 'the task writes the %s it is in charge of' % ('message' if x == 'connection' else 'value'))
            elif w == 'thread':
                r = resized(evs, x)
                v = None
                if len(r) == 1:
                    v = True if poolsize(r[0]) else False if S.is_num(r[0]) else None
                rep.judge(v, 'R1', n.at, 'one slot of %s for each of the threads' % lv_name(x))
            elif w == 'shared':
                rep.judge(None if lock else False, 'R1', n.at, 'a task writes %s, which other tasks access as well' % lv_name(t))
            else:
                rep.und('R1', n.at, 'write of %s inside a task' % lv_name(t))
    neighbours(rep, ins, tctx)
    if not sev:
        rep.und('R1', task.at, 'a task without effects')


def place(t, tctx):
    """(container, index of the loop of the tasks, distance from it)"""
    if t[0] != 'ix':
        return None
    x = t[2]
    if x[0] == '%' and x[2][0] == 'size':
        x = x[1]
    off = 0
    while x[0] in ('+', '-') and len(x) == 3 and S.is_num(x[2]):
        off += x[2][1] if x[0] == '+' else -x[2][1]
        x = x[1]
    return (t[1], x, off) if x[0] == 'i' and own_index(x, tctx) else None


def neighbours(rep, ins, tctx):
    """a task that writes its own element does not access the one of another task"""
    wr = {}
    rd = []
    for n, c in ins:
        if n.k != 'ev':
            continue
        lv = n.a.get('lv') if n.a['ek'] == 'set' else n.a.get('C') if n.a['ek'] == 'mut' else None
        if lv is not None and place(lv, tctx):
            wr.setdefault(place(lv, tctx), n)
        for v in n.a.values():
            if isinstance(v, tuple) and v and isinstance(v[0], str):
                rd += [(place(x, tctx), n) for x in S.all_t(v, lambda y: y[0] == 'ix') if place(x, tctx)]
    for (C, i, off), n in wr.items():
        for (C2, i2, off2), n2 in rd:
            if C2 == C and i2 == i and off2 != off:
                rep.bad('R1', n2.at, 'a task accesses %s, the element of another task' % lv_name(C))
                return


def conjuncts(c):
    t, pol = c[1], c[2]

    def split(t, pol):
        if t[0] == '!':
            return split(t[1], not pol)
        if t[0] == '&&' and pol or t[0] == '||' and not pol:
            return [x for y in t[1:] for x in split(y, pol)]
        return [(t, pol)]
    return split(t, pol)


def field_of(t, e, name):
    """t is the field of the element"""
    return strip(t) == S.mem(e, name) or t == S.mem(e, name)


def read_of(t, e, slot, i):
    """t is what the element reads at position i of its dependencies"""
    d = ('ix', S.mem(e, SLOTS[slot]), i)
    if slot == 'connection':
        return strip(t) == d
    return strip(t) == S.mem(d, 'sender_value_in_combination')


def full(q, C):
    return S.is_num(q[2]) and q[2][1] == 0 and q[3] == ('size', C) and (q[4] == 1 or q[4] == S.lit(1))


def element(evs, n, c):
    """(element, slot) of a push of a batch, or None"""
    if n.a.get('task'):
        for m, mc in inner(evs, n):
            if m.k == 'ev' and m.a['ek'] == 'set':
                root, pa = path(m.a['lv'])
                for k, x in enumerate(pa):
                    if x[0] == 'f' and x[1] in SLOTS:
                        return rebuild(root, pa[:k]), x[1]
        return None
    v = strip(n.a['v'])
    return v, None


def one_thread(conds):
    """do the conditions hold only for a pool of one thread; None: not understood, False: they hold for more"""
    vals = []
    for t, pol in conds:
        r = []
        for n in range(2, 10):
            v = num_truth(t, n)
            if v is None:
                r = None
                break
            r.append(v == pol)
        if r is None:
            vals.append(False if against(t, pol) else None)
        elif not any(r):
            return True
        else:
            vals.append(False)
    return None if any(v is None for v in vals) else False


def against(t, pol):
    """a comparison of the number of threads with a size of the model, which pools of more threads satisfy"""
    while t[0] == '!':
        t, pol = t[1], not pol
    if t[0] != 'rel' or t[1] not in ('<', '<='):
        return False
    a, b = (t[2], t[3]) if pol else (t[3], t[2])
    return b == ('poolsize',) and a[0] == 'size' and a[1][0] in ('var', 'mem', 'p') and not mentions(a, ('poolsize',))


def unclear(t):
    """may the condition say something about the number of threads"""
    return not (num_truth(t, 2) is not None or not (S.has(t, ('poolsize',)) or any(S.has(t, x) for x in ()) or mentions(t, ('var', 'phi', 'call', 'p'))))


def mentions(t, kinds):
    if not isinstance(t, tuple):
        return False
    return bool(t) and t[0] in kinds or any(mentions(x, kinds) for x in t)


def num_truth(t, n):
    def ev(t):
        if S.is_num(t):
            return t[1]
        if t[0] == 'poolsize':
            return n
        if t[0] in ('+', '-', '*') and len(t) == 3:
            a, b = ev(t[1]), ev(t[2])
            return None if a is None or b is None else a + b if t[0] == '+' else a - b if t[0] == '-' else a * b
        return None
    if t[0] == 'rel':
        a, b = ev(t[2]), ev(t[3])
        if a is None or b is None:
            return None
        return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}.get(t[1])
    if t[0] == '!':
        v = num_truth(t[1], n)
        return None if v is None else not v
    return None


def canon_size(t, evs):
    """sizes of the pool and of what has one element for each thread become the size of the pool"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'size':
        r = resized(evs, t[1])
        if len(r) == 1:
            return canon_size(r[0], evs)
    if t and t[0] == 'mem' and t[2] == 'pool_size':
        return ('poolsize',)
    return tuple(canon_size(x, evs) if isinstance(x, tuple) else x for x in t)


def gates(p, rep, f, evs, tasks):
    pushes = []
    for n, c in evs:
        if n.k != 'ev' or n.a['ek'] != 'mut' or n.a['op'] not in ('push',):
            continue
        if any(x[0] == 'task' for x in c):
            continue
        if n.a.get('task'):
            e = element(evs, n, c)
            if e is None:
                continue
            pushes.append((n, c, e[0], e[1]))
        elif n.a['C'][0] == 'new' and n.a['v'] is not None and n.a['v'][0] in ('deref', 'addr', 'phi'):
            # a batch of elements
            e = strip(n.a['v'])
            slot = used_slot(evs, tasks)
            if slot:
                pushes.append((n, c, e, slot))
    for n, c, e, slot in pushes:
        root, pa = path(e)
        cs = [x for y in Q.conds(c) for x in conjuncts(y)]
        k = min([i for i, x in enumerate(c) if x[0] == 'loop' and (root[0] == 'phi' and x[1].a['lid'] == root[1] or any(y[0] == 'ix' and y[1] == x[1].a['i'] for y in pa))] or [0])
        early = {x for y in Q.conds(c[:k]) for x in conjuncts(y)}
        if n.a.get('task') and n.a['C'][0] == 'var' and not local_gate(evs, n, c, e, root):
            # tasks made from batches that were computed before: those are judged where they are filled
            continue
        gate(p, rep, evs, n, c, e, slot, cs, early)


def local_gate(evs, n, c, e, root):
    return root[0] == 'phi' or not (len([x for x in path(e)[1] if x[0] == 'ix']) > 1)


def used_slot(evs, tasks):
    for n, c in tasks:
        e = element(evs, n, c)
        if e:
            return e[1]
    return None


def gate(p, rep, evs, n, c, e, slot, cs, early):
    deps = S.mem(e, SLOTS[slot])
    # tree propagation: only messages whose dependencies are known, which nobody computes again
    for t, pol in cs:
        if t[0] == 'anyi' and not pol and slot == 'connection':
            q, b = t[1], t[2]
            if b[0] == '!' and b[1][0] == 'isset' and b[1][1] == S.mem(('ix', deps, ('i', q[1])), 'message'):
                rep.judge(full(q, deps) or None, 'R2', n.at, 'an element enters the batch only if everything it reads was computed before')
                return
    A = B = None
    odd = []
    ranges = []
    for t, pol in cs:
        if t[0] == 'in' and not pol and field_of(t[2], e, slot):
            A = t[1]
        elif t[0] == 'anyi' and not pol and t[2][0] == 'in' and read_of(t[2][2], e, slot, ('i', t[1][1])):
            B = t[2][1]
            ranges.append(full(t[1], deps))
        elif num_truth(canon_size(t, evs), 2) is not None:
            pass
        elif t[0] == 'rel' and any(x[0] == 'end' for x in t[2:] if isinstance(x, tuple)):
            pass
        elif t[0] == 'rel' and any(isinstance(x, tuple) and x[0] == 'size' for x in t[2:]):
            pass
        elif (t, pol) not in early:
            odd.append(t)
    if A is None and B is None and not odd:
        v = one_thread([(canon_size(t, evs), pol) for t, pol in cs])
        if v is None and not any(unclear(canon_size(t, evs)) for t, pol in cs):
            v = False
        rep.judge(v, 'R3', n.at, 'all the elements go together in one batch: a single thread runs it')
        return
    if odd and all(loose(t, pol, e, slot, deps, evs) for t, pol in cs if t in odd):
        rep.bad('R2', n.at, 'an element enters the batch without all the checks: %s' % S.show(odd[0])[:100])
        return
    if odd:
        rep.und('R2', n.at, 'condition to enter a batch: %s' % S.show(odd[0])[:100])
        return
    one = one_thread([(canon_size(t, evs), pol) for t, pol in cs])
    if one is True:
        rep.judge(True, 'R3', n.at, 'a single thread runs the batch')
        return
    rep.judge(A is not None, 'R2', n.at, 'an element enters the batch only if what it writes is not read by the others')
    rep.judge(B is not None and (not ranges or all(ranges) or None), 'R2', n.at, 'an element enters the batch only if none of what it reads is written by the others')
    mine = [x for x in c if x[0] in ('if', 'loop')]

    def same(ctx):
        """the insertion happens whenever the element is put in the batch"""
        have = {x for y in Q.conds(ctx) for x in conjuncts(y)}
        return have <= set(cs)
    opq = any(x.k == 'ev' and x.a['ek'] == 'opq' for x, _ in evs)
    for name, C, want in (('what is read by the batch', A, 'r'), ('what is written by the batch', B, 'w')):
        if C is None:
            continue
        hits, other = [], []
        for m, mc in evs:
            if m.k == 'ev' and m.a['ek'] == 'mut' and m.a['C'] == C:
                if m.a['op'] in ('insert', 'push'):
                    key = m.a['key'] if m.a.get('key') is not None else m.a['v']
                    L = Q.loops(mc)
                    if want == 'w' and field_of(key, e, slot):
                        hits.append(same(mc))
                    elif want == 'r' and L and read_of(key, e, slot, L[-1][1].a['i']):
                        cv = Q.covers(L[-1], lambda h: h == ('size', deps))
                        extra = [x for x in rel_conds(mc, L[-1])]
                        hits.append((cv if not extra else False if all(Q.arith_cond(x[1]) for x in extra) else None) if same_outer(mc, L[-1], cs) else None)
                    else:
                        other.append(m)
                elif m.a['op'] == 'insert_all':
                    src = strip(m.a['key']) if m.a.get('key') is not None else None
                    if want == 'r' and slot == 'connection' and src == deps:
                        hits.append(same(mc))
                    else:
                        other.append(m)
        v = Q.best(hits) if hasattr(Q, 'best') else (True if True in hits else None if None in hits else (False if hits else None))
        if not hits:
            v = False if not opq and not [m for m in other if not understood(m, e, slot)] else None
        rep.judge(v, 'R2', n.at, 'the batch records %s' % name)
        d = declared(evs, C) if C[0] == 'var' else None
        if d is None:
            rep.und('R2', n.at, 'where the set of %s starts' % name)
            continue
        inl = [x for x in Q.loops(d)]
        # the loop that visits the candidates: the one the element comes from
        root, pa = path(e)
        cand = [x for x in Q.loops(c) if root[0] == 'phi' and x[1].a['lid'] == root[1] or any(y[0] == 'ix' and y[1] == x[1].a['i'] for y in pa)]
        bad = any(x in inl for x in cand)
        clr = [mc for m, mc in evs if m.k == 'ev' and m.a['ek'] in ('mut', 'set') and (m.a.get('C') == C and m.a.get('op') == 'clear' or m.a.get('lv') == C)]
        bad = bad or any(any(x in Q.loops(mc) for x in cand) for mc in clr)
        rep.judge(not bad if cand else None, 'R2', n.at, '%s is kept for the whole batch' % name)


def loose(t, pol, e, slot, deps, evs):
    """a choice of conditions, with one that leaves out a check"""
    while t[0] == '!':
        t, pol = t[1], not pol
    if not (t[0] == '||' and pol or t[0] == '&&' and not pol):
        return False
    for x in t[1:]:
        cs = conjuncts(('if', x, pol))
        a = b = unk = False
        for y, q in cs:
            if y[0] == 'in' and not q and field_of(y[2], e, slot):
                a = True
            elif y[0] == 'anyi' and not q and y[2][0] == 'in':
                b = True
            elif y[0] == 'rel' and S.has(y, deps) and not (y[1] == '==' and not q and S.lit(0) in y[2:]):
                unk = True
            elif y[0] == 'rel' and not S.has(canon_size(y, evs), ('poolsize',)) and not mentions(S.sub(y, {e: ('this',)}), ('call', 'p', 'phi')):
                pass
            else:
                unk = True
        if not unk and not (a and b):
            return True
    return False


def understood(m, e, slot):
    key = m.a.get('key') if m.a.get('key') is not None else m.a.get('v')
    return key is not None and (field_of(key, e, slot) or S.has(key, S.mem(e, SLOTS[slot])))


def rel_conds(ctx, L):
    return [x for x in ctx[ctx.index(L) + 1:] if x[0] == 'if']


def same_outer(ctx, L, cs):
    have = {x for y in Q.conds(ctx[:ctx.index(L)]) for x in conjuncts(y)}
    return have <= set(cs)


def batch(p, rep, f, evs, call, ctx, tasks):
    arg = strip(call.a['args'][0]) if call.a['args'] else None
    if arg is None:
        return rep.und('R4', call.at, 'argument of the pool')
    if arg[0] == 'ix':
        L = Q.loop_of(ctx, arg[2])
        rep.judge(True if L is not None else None, 'R4', call.at, 'the pool gets one batch at a time')
        return
    if arg[0] != 'var':
        return rep.und('R4', call.at, 'argument of the pool')
    d = declared(evs, arg)
    if d is None:
        return rep.und('R4', call.at, 'argument of the pool')
    k = Q.pos(evs, call)
    mine = [(n, c) for n, c in tasks if n.a.get('C') == arg]
    if not mine:
        return rep.und('R4', call.at, 'tasks given to the pool')
    for n, c in mine:
        e = element(evs, n, c)
        if e is None:
            rep.judge(True, 'R4', call.at, 'the pool gets the tasks made for it')
            continue
        root, pa = path(e[0])
        ix = [x[1] for x in pa if x[0] == 'ix']
        ls = [x for x in Q.loops(c) if x[1].a['i'] in ix]
        fresh = list(Q.loops(d))
        for m, mc in evs:
            if m.k == 'ev' and (m.a['ek'] == 'mut' and m.a['C'] == arg and m.a['op'] == 'clear' or m.a['ek'] == 'set' and m.a['lv'] == arg):
                fresh += [x for x in Q.loops(mc) if x not in fresh]
        # the loops over batches: all but the innermost index of the element
        outer = ls[:-1] if root[0] != 'phi' else [x for x in Q.loops(c) if x[1].a['lid'] != root[1]][-1:]
        if root[0] != 'phi' and not outer:
            # every element is in the same list: judged by the gates
            rep.judge(True, 'R4', call.at, 'the pool gets the tasks made for it')
            continue
        miss = [x for x in outer if x not in fresh]
        rep.judge(False if miss else True, 'R4', call.at, 'the pool gets the tasks of one batch, not of several')


def gradients(p, rep):
    fs = []
    for f in p.funcs.values():
        if f['n'] in ('getGradientAlpha', 'getGradientBeta') and f.get('body') and f.get('cls'):
            fs.append(f)
    for f in sorted(fs, key=lambda f: (f['q'], f['c'])):
        rep.fn(f)
        evs = Q.walk(S.Sym(p, keep={'getProbabilities', 'findImage', 'getGradientAlpha', 'getGradientBeta'}).build(f))
        lock = locked(evs)
        bad = 0
        for n, c in evs:
            if n.k != 'ev' or n.a['ek'] not in ('set', 'mut'):
                continue
            t = n.a['lv'] if n.a['ek'] == 'set' else n.a['C']
            root, pa = path(t)
            if root[0] == 'this' and pa and pa[0][0] == 'f':
                ft = ftype(p, f['cls'], pa[0][1])
                if ft is None:
                    rep.und('R1', n.at, 'write of a member of the tuner')
                elif '&' in ft or '*' in ft:
                    bad += 1
                    rep.judge(None if lock else False, 'R1', n.at, 'the gradient of one weight writes %s, which the other tuners access as well' % lv_name(t))
                elif 'shared_ptr' in ft and len(pa) > 1:
                    rep.und('R1', n.at, 'write of %s' % lv_name(t))
            elif root[0] == 'p':
                bad += 1
                rep.judge(None if lock else False, 'R1', n.at, 'the gradient of one weight writes %s, which the other tuners access as well' % lv_name(t))
        rep.judge(True if not bad else None, 'R1', (f['file'], f['l']), '%s writes only members of its own tuner' % f['q'].replace('EFG::', '')) if not bad else None


def ftype(p, cls, name, depth=0):
    r = p.record(cls)
    if not r or depth > 4:
        return None
    for x in r['f']:
        if x['n'] == name:
            return x['t']
    for b in r.get('b') or r.get('bases') or ():
        q = b['t'] if isinstance(b, dict) else b
        t = ftype(p, q, name, depth + 1)
        if t:
            return t
    return None


SHAREDCLS = ('EFG::factor::Function', 'EFG::factor::Immutable', 'EFG::factor::Factor', 'EFG::factor::FactorExponential', 'EFG::strct::Node', 'EFG::categoric::Group',
             'EFG::categoric::Variable', 'EFG::train::TrainSet', 'EFG::strct::HiddenCluster', 'EFG::strct::Cache')


def lambda_refs(p, f):
    """functions named inside the lambdas of f that take a thread id"""
    return G.CG(p)


def shared(p, rep):
    g = G.CG(p)
    seeds = set()
    # what the bodies of the tasks may call: the functions that make tasks, and what they reach
    for f in p.funcs.values():
        if not f.get('body'):
            continue
        hit = []

        def v(n):
            if n.get('k') == 'lambda' and is_task(n):
                hit.append(n)
        P.walk(f['body'], v)
        for l in hit:
            def w(n):
                if n.get('k') in ('call', 'ctor') and n.get('c'):
                    seeds.add(n['c'])
                    if n.get('virt'):
                        seeds.update(p.overriders.get(n['c'], ()))
            P.walk(l, w)
            checkbody(p, rep, g, f, l)
    for cls in ('EFG::factor::Evidence', 'EFG::factor::MergedUnaries', 'EFG::factor::MessageSUM', 'EFG::factor::MessageMAP'):
        for u in g.ctors.get(cls, ()):
            seeds.add(u)
    reach = set()
    for u in seeds:
        reach |= g.callees(u)
    n = 0
    for u in sorted(reach, key=lambda u: (p.funcs[u]['q'], u)):
        f = p.funcs[u]
        if not f.get('body'):
            continue
        n += 1
        checkbody(p, rep, g, f, None)
    rep.judge(True if n else None, 'R5', None, '%d functions reached from tasks use no shared variable' % n) if n else rep.und('R5', None, 'no function reached from tasks')


def is_task(n):
    ps = n.get('params') or n.get('p') or ()
    return len(ps) == 1 and 'unsigned long' in (ps[0].get('t') or '')


def haslock(f):
    hit = []

    def v(n):
        if n.get('k') == 'decl':
            for x in n.get('v') or n.get('vars') or ():
                if isinstance(x, dict) and any(y in (x.get('t') or '') for y in ('lock_guard', 'scoped_lock', 'unique_lock')):
                    hit.append(1)
    P.walk(f.get('body'), v)
    return bool(hit)


def checkbody(p, rep, g, f, lam):
    body = lam if lam is not None else f['body']
    muts = {}
    par = G.parents({'k': 'root', 'b': [body]})

    def change(n):
        x = par.get(id(n))
        if x is None:
            return False
        x, sub = x
        k = x.get('k')
        if k == 'asg':
            return x['a'] is n
        if k == 'un':
            return x['op'] in ('++', '--', 'post++', 'post--') or x['op'] == '&' and None
        if k == 'cast':
            return change(x)
        if k == 'mem':
            return change(x)
        if k == 'call':
            if x.get('o') is n:
                if x.get('cst'):
                    return False
                nm = (x.get('q') or '').split('::')[-1]
                if nm in G.ACCESS or x.get('op') in ('[]', '*', '->'):
                    return change(x) if 'iterator' not in (x.get('t') or '') else None
                return True
            for i, a in enumerate(x.get('a') or ()):
                if a is n:
                    pk = x.get('pk') or []
                    return None if i >= len(pk) or pk[i] not in ('cr', 'v') else False
            return None
        if k in ('decl', 'rfor'):
            v = sub or x.get('v') or {}
            if isinstance(v, dict) and v.get('ref') and not (v.get('t') or '').startswith('const'):
                return None
            return False
        return False

    def v(n):
        k = n.get('k')
        if k == 'ref' and n.get('dk') == 'global' and not n.get('tls'):
            t = n.get('t') or ''
            if t.startswith('const ') or 'atomic' in t or 'mutex' in t or (n.get('q') or '').startswith('std::'):
                return
            c = change(n)
            if c:
                muts[id(n)] = (n, 'the variable %s, which all the threads share, is changed in a function that tasks run' % n['n'], True)
            elif c is None:
                muts[id(n)] = (n, 'the variable %s is given away in a function that tasks run' % n['n'], None)
        elif k == 'mem':
            r = p.record(n.get('fc') or '')
            fd = [x for x in (r or {'f': ()})['f'] if x['n'] == n['f']]
            if fd and fd[0].get('mut') and f.get('cst') and 'atomic' not in fd[0]['t'] and 'mutex' not in fd[0]['t']:
                fc = n['fc']
                if 'Sampler' in fc:
                    return
                c = change(n)
                if c:
                    muts[id(n)] = (n, 'the mutable member %s is changed in a function that tasks run' % n['f'], True if any(fc.startswith(x) for x in SHAREDCLS) else None)
    P.walk(body, v)
    lk = haslock(f)
    for n, text, hard in muts.values():
        rep.judge(False if hard and not lk else None, 'R5', (f['file'], n.get('l')), text)
