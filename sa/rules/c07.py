"""Each belief is made of all its contributions, each once (contents of the lists of factors that
are merged, as comprehensions over the connections of a node)."""
import itertools
import sym as S
import seqs as Q
import bags as B
import model as M
import prog as P
import c17

FA = 'EFG::factor::'
MU = FA + 'MergedUnaries'
QM = 'EFG::strct::QueryManager'
TI = 'EFG::strct::HiddenCluster::TopologyInfo'
KEEP = {'locate', 'getProbabilities', 'propagateBelief', 'dotProduct', 'forEachCombination', 'forEachNonNullCombination', 'findVariable',
        'wouldNeedPropagation', 'diff', 'cloneWithPermutedGroup'}
ASSUME = ['messages and merged unaries hold the factors of the right variables (C02, C04, C17)']


def run(p, rep):
    rep.rule('R1', 'the belief of a variable merges what is known of it alone with the messages of all its active connections, each once')
    rep.rule('R2', 'what is known of a variable alone merges all its unary factors and the messages of all its disabled connections, each once')
    rep.rule('R3', 'a message merges what is known of the sender alone and the messages of all its other active connections but the one of the recipient; it goes through the factor '
             'of that connection, with a sum or a maximum as asked, and is stored at the recipient; there is one for each direction of each active connection')
    rep.rule('R4', 'a joint distribution merges, for each variable of the group, what is known of it alone, the messages of the variables outside of the group and the factors toward those inside; '
             'an observed one contributes its value')
    rep.rule('R5', 'merging multiplies, position by position, all the factors of the list')
    rep.rule('R7', 'a message is the binary factor met with the distribution of the sender, summed or maximised over all of its values as the kind of propagation says; '
             'the message of an evidence is the binary factor at the observed value')
    sub = rep.sub({'R1': 'R7', 'R2': 'R7'})
    c17.message(p, sub, 'MessageSUM', 'sum')
    c17.message(p, sub, 'MessageMAP', 'max')
    c17.evidence(p, sub)
    rep.rule('R6', 'the answers are read from the belief of the variable that was asked: all the hidden variables in their order; the value with the greatest probability; the value of an evidence has probability 1')
    m = M.Model(p)
    f = m.f
    seen = 0
    for fn in list(p.funcs.values()):
        if not fn.get('body') or not fn['q'].startswith('EFG::') or fn['q'].startswith((MU, FA + 'UnaryFactor', FA + 'Mergable')):
            continue
        if not lexical(fn, MU):
            continue
        seen += 1
        rep.fn(fn)
        sites(p, rep, m, fn)
    if not seen:
        rep.missing('merging of factors')
    topology(p, rep, m)
    joint(p, rep, m)
    merging(p, rep)
    answers(p, rep, m)


def lexical(fn, cls):
    hit = []

    def v(n):
        if n.get('k') in ('ctor', 'call') and cls in (n.get('t') or '') and (n['k'] == 'ctor' or 'make_' in (n.get('q') or '')):
            hit.append(n)
    P.walk([fn['body'], fn.get('inits')], v)
    return bool(hit)


def classify(m, it):
    """kind, node, loop, conditions"""
    f = m.f
    v = it.v
    while v[0] in ('addr', 'deref') and v[0] == 'deref':
        v = v[1]
    ls, cs = Q.loops(it.ctx), Q.conds(it.ctx)
    if v[0] == 'mem' and v[2] == f['merged']:
        return 'merged', v[1], ls, cs
    if v[0] == 'mem' and v[2] in (f['message'], f['cfactor']):
        b = v[1]
        what = 'msg' if v[2] == f['message'] else 'fact'
        if b[0] == 'val' and b[1][0] == 'mem' and b[1][2] in (f['active'], f['disabled']):
            k = b[2]
            return ('a' if b[1][2] == f['active'] else 'd') + what, b[1][1], ls, cs
        if b[0] == 'ix' and b[1][0] == 'mem':
            return 'dep' + what, b[1], ls, cs
        return what, b, ls, cs
    if v[0] == 'ix' and v[1][0] == 'mem' and v[1][2] == f['unaries']:
        return 'unary', v[1][1], ls, cs
    return None, None, ls, cs


def whole(it, C, ls):
    """the loop around the item visits the whole of C, and the item is the one of its iteration"""
    if len(ls) != 1:
        return None
    L = ls[0]
    i = L[1].a['i']
    if not S.has(it.v, i):
        return False if it.v[0] == 'ix' and S.is_num(it.v[2]) else None
    if it.v[0] == 'mem' and it.v[1][0] == 'val' and it.v[1][2] != ('key', C, i):
        return None
    if it.v[0] == 'ix' and it.v[2] != i:
        return False if Q.arith(it.v[2]) else None
    part = L[2] and not gives_up(L[1].a['body'])
    if part and cut_short(L[1].a['body']):
        return False
    if L[1].a['lk'] == 'each' and L[1].a.get('C') == C:
        return None if part else True
    return Q.covers((L[0], L[1], part), lambda h: h == ('size', C))


def cut_short(n, under=None):
    """the loop is left early once a count reaches a fixed number"""
    k = n.k
    if k == 'break':
        return bool(under)
    if k == 'seq':
        return any(cut_short(x, under) for x in n.a['s'])
    if k == 'if':
        c = n.a['c']
        while c[0] == '!':
            c = c[1]
        u = c[0] == 'rel' and any(S.is_num(x) and x != S.lit(0) for x in c[2:4])
        return cut_short(n.a['a'], u) or cut_short(n.a['b'], u)
    return False


def gives_up(n, top=True):
    """the loop is left only by returning that nothing could be computed"""
    k = n.k
    if k == 'ret':
        return n.a.get('v') in (S.NULLOPT, S.FALSE, S.NULL)
    if k == 'break':
        return not top
    if k == 'seq':
        return all(gives_up(x, top) for x in n.a['s'])
    if k == 'if':
        return gives_up(n.a['a'], top) and gives_up(n.a['b'], top)
    if k == 'loop':
        return gives_up(n.a['body'], False)
    return k != 'try'


def understood(cs):
    """conditions that are about positions, sizes or the messages themselves"""
    def t(c):
        if c[0] == '!':
            return t(c[1])
        if c[0] in ('&&', '||'):
            return t(c[1]) and t(c[2])
        if c[0] == 'rel':
            return True
        return c[0] in ('in', 'isset', 'isalt')
    return all(t(c[1]) for c in cs)


def benign(m, cs, it):
    """conditions that never leave out a contribution: the message exists"""
    out = []
    for c in cs:
        t, pol = c[1], c[2]
        while t[0] == '!':
            t, pol = t[1], not pol
        if t[0] == 'isset' and pol and (t[1] == it.v or it.v[0] == 'deref' and t[1] == it.v[1]):
            continue
        if t[0] == 'isset' and pol and t[1][0] == 'mem' and t[1][2] in (m.f['merged'], m.f['message']):
            continue
        if t[0] == 'rel' and t[1] == '==' and t[2][0] == 'size' and t[3] == S.lit(0) and not pol:
            continue    # nothing to visit
        out.append(c)
    return out


def sites(p, rep, m, fn):
    t = S.Sym(p, keep=KEEP).build(fn)
    evs = Q.walk(t)
    f = m.f
    for k, (n, ctx) in enumerate(evs):
        if n.k != 'ev' or n.a['ek'] != 'ctor' or n.a['cls'] != MU or len(n.a['args']) != 1:
            continue
        L = B.strip(n.a['args'][0])
        if L[0] not in ('var', 'list'):
            continue
        items = B.content(evs, L, k)
        if items is None:
            rep.und('R1', n.at, fn['q'] + ': what is merged')
            continue
        ks = [(it,) + classify(m, it) for it in items]
        kinds = {x[1] for x in ks}
        if 'unary' in kinds or 'dmsg' in kinds:
            alone(rep, m, fn, n, ks, evs, k)
        elif 'merged' in kinds or 'amsg' in kinds or 'depmsg' in kinds:
            belief(rep, m, fn, n, ks, evs, k)
        else:
            rep.und('R1', n.at, fn['q'] + ': what is merged')


def alone(rep, m, fn, n, ks, evs, k):
    f = m.f
    nodes = {x[2] for x in ks if x[2] is not None}
    if len(nodes) != 1 or None in {x[1] for x in ks}:
        return rep.und('R2', n.at, fn['q'] + ': what is known of a variable alone')
    X = nodes.pop()
    for kind, C, what in (('unary', S.mem(X, f['unaries']), 'unary factors'), ('dmsg', S.mem(X, f['disabled']), 'messages of the disabled connections')):
        mine = [x for x in ks if x[1] == kind]
        v = True if mine else False
        if len(mine) > 1:
            v = None
        for it, _, _, ls, cs in mine:
            w = whole(it, C, ls)
            cs = benign(m, cs, it)
            if cs:
                w = False if understood(cs) and w is not None else None
            v = Q.worst([v, w])
        rep.judge(v, 'R2', n.at, '%s: all the %s take part' % (fn['q'], what))
    extra = [x for x in ks if x[1] not in ('unary', 'dmsg')]
    rep.judge(not extra, 'R2', n.at, fn['q'] + ': nothing else does')
    # stored in the same node
    for n2, _ in evs[k:]:
        if n2.k == 'ev' and n2.a['ek'] == 'set' and n2.a['v'] == n.a['r']:
            ok = n2.a['lv'] == S.mem(X, f['merged'])
            rep.judge(True if ok else False if n2.a['lv'][0] == 'mem' and n2.a['lv'][2] == f['merged'] else None, 'R2', n2.at, fn['q'] + ': kept in the same node')


def belief(rep, m, fn, n, ks, evs, k):
    f = m.f
    q = fn['q']
    mg = [x for x in ks if x[1] == 'merged']
    am = [x for x in ks if x[1] == 'amsg']
    dp = [x for x in ks if x[1] == 'depmsg']
    oth = [x for x in ks if x[1] not in ('merged', 'amsg', 'depmsg')]
    if oth or any(x[0].neg for x in ks):
        return rep.und('R1', n.at, q + ': what is merged')
    nodes = {x[2] for x in mg + am}
    if len(nodes) > 1:
        return rep.judge(False if len(nodes) == 2 and len(mg) == 1 and len({x[2] for x in am}) == 1 and all(y[0] in ('p', 'mem') for y in nodes) else None, 'R1', n.at,
                         q + ': the contributions are of one variable')
    X = nodes.pop() if nodes else None
    rule = 'R3' if dp else 'R1'
    rep.judge(True if len(mg) == 1 and not mg[0][3] and not benign(m, mg[0][4], mg[0][0]) else False if not mg or len(mg) == 2 and not mg[0][3] and not mg[1][3] else None, rule, n.at, q + ': what is known of the variable alone takes part, once')
    if dp:
        for it, _, C, ls, cs in dp:
            w = whole(it, C, ls)
            cs = benign(m, cs, it)
            rep.judge(w if not cs else False if understood(cs) and w is not None else None, 'R3', n.at, q + ': all the messages of the other connections take part')
        if am:
            rep.judge(None, 'R3', n.at, q + ': messages')
        if len(dp) > 1:
            rep.judge(False if all(not benign(m, x[4], x[0]) for x in dp) else None, 'R3', n.at, q + ': each once')
        return
    if not am:
        return rep.judge(False, 'R1', n.at, q + ': the messages of the active connections take part')
    if len(am) > 1:
        return rep.judge(False if all(not benign(m, x[4], x[0]) and whole(x[0], S.mem(X, f['active']), x[3]) for x in am) else None, 'R1', n.at, q + ': each message takes part once')
    it, _, _, ls, cs = am[0]
    C = S.mem(X, f['active'])
    w = whole(it, C, ls)
    cs = benign(m, cs, it)
    excl = [c for c in cs if exclusion(c, C, ls)]
    rest = [c for c in cs if c not in excl]
    if rest:
        w = False if understood(rest) and w is not None else None
    rep.judge(w, 'R1', n.at, q + ': the messages of all the active connections take part')
    pair = two_nodes(fn)
    if pair:
        o = [exclusion(c, C, ls) for c in excl]
        # the other one of the pair
        rep.judge(False if not o and pair_of(X) or o and o[0] == X else True if o else None, 'R1', n.at, q + ': but the one of the other variable of the factor')
    else:
        rep.judge(False if excl and w is not None else True, 'R1', n.at, q + ': no message is left out')


def pair_of(X):
    return X[0] == 'mem' and X[1] == ('this',) or X[0] == 'p'


def two_nodes(fn):
    return bool(fn.get('cls')) and fn['cls'].endswith('BinaryTuner') or fn['file'].endswith('BinaryTuner.cpp')


def exclusion(c, C, ls):
    """the condition leaves out the connection toward one node: that node"""
    t, pol = c[1], c[2]
    while t[0] == '!':
        t, pol = t[1], not pol
    if t[0] != 'rel' or len(ls) != 1:
        return None
    key = ('key', C, ls[0][1].a['i'])
    if t[1] == '==' and not pol or t[1] == '!=' and pol:
        o = t[3] if t[2] == key else t[2] if t[3] == key else None
        if o is not None:
            return o[1] if o[0] == 'addr' else o
    return None


# ------------------------------------------------------------------ messages
def topology(p, rep, m):
    f = m.f
    fns = [x for x in p.fns('EFG::strct::HiddenCluster::updateConnectivity') if x.get('body')]
    if not fns:
        rep.und('R3', ('', 0), 'messages of a cluster')
    for fn in fns:
        rep.fn(fn)
        evs = Q.walk(S.Sym(p, keep=KEEP | {'updateMergedUnaries'}).build(fn))
        at = (fn['file'], fn['l'])
        conn = S.mem(('this',), f['connectivity'])
        new = [(k, n, c) for k, (n, c) in enumerate(evs) if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['op'] == 'push' and (n.a['C'] == conn or m.role(n.a['C']) == 'connectivity'
               or n.a['C'][0] == 'var' and 'TopologyInfo' in (n.a.get('t') or ''))]
        if len(new) != 1:
            rep.und('R3', at, fn['q'] + ': messages of a cluster')
            continue
        k, n, ctx = new[0]
        ls = Q.loops(ctx)
        cs = [c for c in Q.conds(ctx) if not empty(c)]
        nodes = S.mem(('this',), f['cnodes'])
        if len(ls) != 2:
            rep.und('R3', n.at, fn['q'] + ': messages of a cluster')
            continue
        outer, inner = ls
        node = ('ix', nodes, outer[1].a['i'])
        act = S.mem(node, f['active'])
        v = Q.worst([Q.covers(outer, lambda h: h == ('size', nodes)) if outer[1].a.get('C') != nodes else None if outer[2] else True,
                     Q.covers(inner, lambda h: h == ('size', act)) if inner[1].a.get('C') != act else None if inner[2] else True])
        if cs:
            v = False if understood(cs) and v else None
        rep.judge(v, 'R3', n.at, fn['q'] + ': one message for each active connection of each node')
        key = ('key', act, inner[1].a['i'])
        e = n.a['new']
        vals = {}
        for n2, c2 in evs[k:]:
            if n2.k == 'ev' and n2.a['ek'] == 'set' and n2.a['lv'][0] == 'mem' and n2.a['lv'][1] == e:
                vals[n2.a['lv'][2]] = (n2.a['v'], n2)
        if not vals and n.a['v'] is not None:
            rep.und('R3', n.at, fn['q'] + ': data of a message')
            continue
        for x in p.record(TI)['f']:
            if x['n'] not in vals:
                continue
            v, n2 = vals[x['n']]
            if 'vector' in x['t']:
                deps(rep, m, fn, evs, n2, v, node, act, key)
            elif 'Connection' in x['t']:
                want = ('addr', ('val', S.mem(key, f['active']), node))
                wrong = v == ('addr', ('val', act, key)) or v[0] == 'addr' and v[1][0] == 'val' and v[1][1] in (act, S.mem(key, f['active']), S.mem(key, f['disabled']), S.mem(node, f['disabled']))
                rep.judge(True if v == want else False if wrong else None, 'R3', n2.at, fn['q'] + ': the message is stored at the recipient, in its connection with the sender')
            elif 'Node' in x['t']:
                rep.judge(True if v == node else False if v == key else None, 'R3', n2.at, fn['q'] + ': the sender is the node')
    messages(p, rep, m)


def empty(c):
    """not (size == 0)"""
    t, pol = c[1], c[2]
    while t[0] == '!':
        t, pol = t[1], not pol
    return t[0] == 'rel' and t[1] == '==' and t[2][0] == 'size' and t[3] == S.lit(0) and not pol


def deps(rep, m, fn, evs, n2, v, node, act, key):
    items = B.content(evs, v, Q.pos(evs, n2))
    w = None
    if items is not None:
        pos = [x for x in items if not x.neg]
        neg = [x for x in items if x.neg]
        me = ('addr', ('val', act, key))
        allv = None
        if len(pos) == 1:
            it = pos[0]
            ls = Q.loops(it.ctx)
            if len(ls) == 1 and it.v == ('addr', ('val', act, ('key', act, ls[0][1].a['i']))):
                allv = True if ls[0][1].a.get('C') == act and not ls[0][2] else Q.covers(ls[0], lambda h: h == ('size', act))
                cs = Q.conds(it.ctx)
                i = ls[0][1].a['i']
                ex = [c for c in cs if self_excl(c, key, ('key', act, i), me, it.v)]
                if cs and len(cs) == len(ex):
                    w = allv if not neg else None
                    allv = None
                elif cs:
                    allv = False if understood(cs) and allv else None
        elif len(pos) > 1:
            allv = None
        if allv is not None:
            if len(neg) == 1 and not Q.loops(neg[0].ctx) and Q.conds(neg[0].ctx) and sizes_only(Q.conds(neg[0].ctx), v):
                w = False
            elif len(neg) == 1 and not Q.loops(neg[0].ctx) and not Q.conds(neg[0].ctx):
                w = allv if neg[0].v == me else False if neg[0].v[0] == 'addr' and neg[0].v[1][0] == 'val' else None
            elif not neg:
                w = False
        elif not pos:
            w = False
    rep.judge(w, 'R3', n2.at, fn['q'] + ': it depends on the messages of all the other active connections of the sender, and on no other')


def sizes_only(cs, v):
    """the connection of the recipient stays when there are few of them (it is always one of them)"""
    for c in cs:
        t, pol = c[1], c[2]
        while t[0] == '!':
            t, pol = t[1], not pol
        if t[0] != 'rel' or not any(x[0] == 'size' for x in t[2:4]) or not any(S.is_num(x) for x in t[2:4]):
            return False
        if set(t[2:4]) & {S.lit(0)}:
            return False
    return True


def self_excl(c, key, k2, me, v2):
    t, pol = c[1], c[2]
    while t[0] == '!':
        t, pol = t[1], not pol
    if t[0] != 'rel' or not (t[1] == '==' and not pol or t[1] == '!=' and pol):
        return False
    return set(t[2:4]) in ({key, k2}, {me, v2})


def messages(p, rep, m):
    f = m.f
    for fn in p.fns(TI + '::updateMessage'):
        if not fn.get('body'):
            continue
        evs = Q.walk(S.Sym(p, keep=KEEP).build(fn))
        for n, ctx in evs:
            if n.k != 'ev' or n.a['ek'] != 'set' or n.a['lv'][0] != 'mem' or n.a['lv'][2] != f['message']:
                continue
            v = n.a['v']
            if v[0] != 'make' or not v[1].startswith(FA + 'Message') or len(v[2]) != 2:
                if v != S.NULL:
                    rep.und('R3', n.at, fn['q'] + ': message')
                continue
            conn = n.a['lv'][1]
            fac = v[2][1]
            fac = fac[1] if fac[0] == 'deref' else fac
            rep.judge(True if fac == S.mem(conn, f['cfactor']) else None, 'R3', n.at, fn['q'] + ': through the factor of its connection')
            src = v[2][0]
            ok = src[0] == 'ctor' and src[1] == MU
            rep.judge(True if ok else False if S.any_t(src, lambda x: x[0] == 'mem' and x[2] == f['merged']) else None, 'R3', n.at, fn['q'] + ': from what was merged')
            kinds = [(c[1], c[2]) for c in Q.conds(ctx) if c[1][0] == 'rel' and any(isinstance(x, tuple) and 'PropagationKind' in repr(x) for x in c[1][2:4])]
            pos = [repr(t) for t, pol in kinds if pol]
            want = 'SUM' if v[1].endswith('SUM') else 'MAP' if v[1].endswith('MAP') else None
            k = None
            if pos and want:
                k = "PropagationKind::%s'" % want in pos[0] or 'PropagationKind::%s' % want in pos[0]
            elif kinds and want:
                k = 'PropagationKind::%s' % want not in repr(kinds[-1][0]) if len(kinds) == 1 else None
            rep.judge(k, 'R3', n.at, fn['q'] + ': a sum or a maximum, as asked')


# --------------------------------------------------------------------- joint
def joint(p, rep, m):
    f = m.f
    for fn in p.fns(QM + '::getJointMarginalDistribution'):
        if not fn.get('body') or 'Group' not in fn['params'][0]['t']:
            continue
        rep.fn(fn)
        evs = Q.walk(S.Sym(p, keep=KEEP).build(fn))
        at = (fn['file'], fn['l'])
        ok = 0
        for k, (n, ctx) in enumerate(evs):
            if n.k != 'ev' or n.a['ek'] != 'ctor' or n.a['cls'] != FA + 'Factor' or len(n.a['args']) != 1:
                continue
            items = B.content(evs, n.a['args'][0], k)
            if items is None or any(x.neg for x in items):
                continue
            ok += 1
            group_items(rep, m, fn, evs, k, n, items)
        if not ok:
            rep.und('R4', at, fn['q'] + ': what is merged')


def group_items(rep, m, fn, evs, k, n, items):
    f = m.f
    q = fn['q']
    par = ('p', 0, fn['params'][0]['n'])
    isset_ = any(e.k == 'ev' and e.a['ek'] == 'mut' and e.a['C'] == B.strip(n.a['args'][0]) and 'set<' in (e.a.get('t') or '') for e, _ in evs)
    by = {}
    for it in items:
        kind, X, ls, cs = classify(m, it)
        if kind is None:
            v = it.v[1] if it.v[0] == 'addr' else it.v
            if v[0] == 'new' or v[0] in ('make', 'ctor') and v[1] == FA + 'Indicator':
                kind = 'ind'
        by.setdefault(kind, []).append((it, X, ls, cs))
    if None in by:
        return rep.und('R4', n.at, q + ': what is merged')
    outer = set()
    for kd, xs in by.items():
        for it, X, ls, cs in xs:
            outer.add(ls[0][1].a['i'] if ls else None)
    Xs = {x[1] for kd in ('merged', 'amsg', 'afact') for x in by.get(kd, ())}
    if len(Xs) != 1 or len(outer) != 1 or None in outer:
        return rep.und('R4', n.at, q + ': variables of the group')
    X = Xs.pop()
    L0 = by[next(iter(by))][0][2][0]
    src = L0[1].a.get('C')
    # the loop visits all the variables of the group
    cov = None
    if src is not None and not L0[2]:
        full = grp(src, par)
        if src[0] == 'var':
            its = B.content(evs, src, k)
            full = bool(its) and len(its) == 1 and len(Q.loops(its[0].ctx)) == 1 and grp(Q.loops(its[0].ctx)[0][1].a.get('C') or ('x',), par)
            if full:
                l2 = Q.loops(its[0].ctx)[0]
                cs2 = [c for c in Q.conds(its[0].ctx) if not (c[1][0] == 'isset' or c[1][0] == '!' and c[1][1][0] == 'isset')]
                full = None if l2[2] or cs2 else True
        cov = True if full else None
    elif L0[1].a['lo'] is not None and S.is_num(L0[1].a['lo']):
        cov = Q.covers(L0, lambda h: h[0] == 'size')
    rep.judge(cov, 'R4', n.at, q + ': each variable of the group contributes')
    C = S.mem(X, f['active'])
    hid = lambda cs: [c for c in cs if not alt_cond(c)]
    for it, _, ls, cs in by.get('merged', ()):
        rep.judge(True if len(ls) == 1 and not benign(m, hid(cs), it) else False if understood(hid(cs)) else None, 'R4', n.at, q + ': what is known of the variable alone takes part')
    if not by.get('merged'):
        rep.bad('R4', n.at, q + ': what is known of the variable alone takes part')
    for kd, inside, what in (('amsg', False, 'the messages of the variables outside of the group'), ('afact', True, 'the factors toward the variables of the group')):
        xs = by.get(kd, ())
        if len(xs) != 1:
            rep.judge(None if xs else False, 'R4', n.at, q + ': ' + what)
            continue
        it, _, ls, cs = xs[0]
        if len(ls) != 2:
            rep.und('R4', n.at, q + ': ' + what)
            continue
        L = ls[1]
        w = True if L[1].a.get('C') == C and not L[2] else Q.covers(L, lambda h: h == ('size', C))
        if it.v[1] != ('val', C, ('key', C, L[1].a['i'])):
            w = None
        mem = [c for c in hid(cs) if member(c, ('key', C, L[1].a['i'])) is not None]
        rest = [c for c in benign(m, hid(cs), it) if c not in mem]
        if not mem:
            w = False if w and not rest else None
        elif len(mem) > 1:
            w = None
        else:
            pol = member(mem[0], ('key', C, L[1].a['i']))
            w = w if pol == inside else False
            G = mem[0]
        if rest:
            w = False if understood(rest) and w is not None else None
        if w is None and L[1].a.get('C') == C and not L[2] and it.v[1] == ('val', C, ('key', C, L[1].a['i'])):
            w = selects(hid(cs), ('key', C, L[1].a['i']), C, inside)
        rep.judge(w, 'R4', n.at, q + ': ' + what)
        if mem:
            t = mem[0][1]
            while t[0] == '!':
                t = t[1]
            gi = B.content(evs, t[1], k)
            ok = None
            if gi is not None and len(gi) == 1 and not gi[0].neg:
                l3 = Q.loops(gi[0].ctx)
                if len(l3) == 1 and not l3[0][2]:
                    s3 = l3[0][1].a.get('C')
                    cs3 = [c for c in Q.conds(gi[0].ctx) if not (c[1][0] == 'isset' or c[1][0] == '!' and c[1][1][0] == 'isset')]
                    if s3 is not None and (grp(s3, par) or s3 == src):
                        ok = True if not cs3 else False if all(c[1][0] in ('rel',) for c in cs3) else None
            rep.judge(ok, 'R4', n.at, q + ': all the variables of the group are in the group')
    xs = by.get('ind', ())
    if not xs:
        rep.bad('R4', n.at, q + ': an observed variable contributes its value')
    for it, _, ls, cs in xs:
        v = it.v[1] if it.v[0] == 'addr' else it.v
        args = None
        if v[0] == 'new':
            for e, _ in evs[:k]:
                if e.k == 'ev' and e.a['ek'] == 'mut' and e.a.get('new') == v and e.a['v'] is not None and e.a['v'][0] == 'args':
                    args = e.a['v'][1:]
        else:
            args = v[2]
        ok = None
        if args and len(args) == 2:
            a, b = args
            va = a == S.mem(X, f['nvar'])
            vb = b[0] == 'mem' and b[2] == 'second' and b[1][0] == 'alt'
            ok = True if va and vb else False if va and (S.is_num(b) or Q.arith(b)) else None
        rep.judge(ok if not benign(m, hid(cs), it) else False if understood(hid(cs)) else None, 'R4', it.at or n.at, q + ': an observed variable contributes its value')
    if not isset_:
        rep.judge(None, 'R4', n.at, q + ': a factor between two variables of the group takes part once')
    else:
        rep.ok('R4', n.at, q + ': a factor between two variables of the group takes part once') if hasattr(rep, 'ok') else rep.judge(True, 'R4', n.at, q + ': a factor between two variables of the group takes part once')


def selects(cs, key, act, inside):
    """do the conditions hold exactly for the neighbours inside / outside of the group, whatever the amounts involved; None: not understood"""
    sizes, sets = set(), set()

    def scan(t):
        if t[0] == '!':
            return scan(t[1])
        if t[0] in ('&&', '||'):
            return scan(t[1]) and scan(t[2])
        if t[0] == 'in' and t[2] == key:
            sets.add(t[1])
            return True
        if t[0] == 'rel' and all(x[0] == 'size' or S.is_num(x) for x in t[2:4]):
            sizes.update(x for x in t[2:4] if x[0] == 'size')
            return True
        return t[0] == 'bool'

    if not all([scan(c[1]) for c in cs]) or len(sets) != 1 or len(sizes) > 2:
        return None
    G = ('size', next(iter(sets)))
    if not sizes <= {G, ('size', act)}:
        return None
    sizes = sorted(sizes, key=repr)

    def val(t, env):
        if t[0] == '!':
            return not val(t[1], env)
        if t[0] == '&&':
            return val(t[1], env) and val(t[2], env)
        if t[0] == '||':
            return val(t[1], env) or val(t[2], env)
        if t[0] == 'in':
            return env['M']
        if t[0] == 'bool':
            return t[1]
        x, y = [env[z] if z in env else z[1] for z in t[2:4]]
        return {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[t[1]]

    for M_ in (True, False):
        for v in itertools.product(range(1, 8), repeat=len(sizes)):
            env = dict(zip(sizes, v), M=M_)
            if M_ and env.get(G, 2) < 2:
                continue
            if all(val(c[1], env) == c[2] for c in cs) != (M_ == inside):
                return False
    return True


def evidence(x):
    return x[0] == 'mem' and x[2] == 'second' and x[1][0] == 'alt' or x[0] == 'val' and x[1][0] == 'mem' and 'vidence' in str(x[1][2])


def alt_cond(c):
    t = c[1]
    while t[0] == '!':
        t = t[1]
    return t[0] in ('isalt',)


def grp(c, par):
    return S.has(c, par) and c[0] == 'mem'


def member(c, key):
    t, pol = c[1], c[2]
    while t[0] == '!':
        t, pol = t[1], not pol
    if t[0] == 'in' and t[2] == key:
        return pol
    return None


# ------------------------------------------------------------------- merging
def merging(p, rep):
    for fn in p.fns(MU + '::MergedUnaries'):
        if fn.get('body') is None or 'vector' not in fn['params'][0]['t']:
            continue
        rep.fn(fn)
        par = ('p', 0, fn['params'][0]['n'])
        t = S.Sym(p, keep=KEEP).build(fn)
        evs = Q.walk(t)
        at = (fn['file'], fn['l'])
        # images multiplied inside a visit of the images of a factor of the list
        mul = []
        for n, ctx in evs:
            if n.k == 'ev' and n.a['ek'] == 'set':
                h = [c for c in Q.loops(ctx) if c[1].a['lk'] == 'hof']
                o = [c for c in Q.loops(ctx) if c[1].a['lk'] != 'hof']
                if h and S.has(n.a['v'], h[-1][1].a['i']) and S.any_t(n.a['v'], lambda x: x[0] == 'hp' and x[1] == 1):
                    mul.append((n, ctx, h[-1], o))
        if len(mul) != 1:
            rep.und('R5', at, fn['q'] + ': product')
            continue
        n, ctx, h, o = mul[0]
        hp = ('hp', 1, h[1].a['i'])
        prod = n.a['op'] == '*' and n.a['v'] == hp or n.a['op'] == '=' and n.a['v'] in (('*', n.a['lv'], hp), ('*', hp, n.a['lv']))
        rep.judge(True if prod else False if n.a['v'] == hp or n.a['v'][0] in ('+', '-') else None, 'R5', n.at, fn['q'] + ': the images are multiplied')
        C = h[1].a.get('C')
        ok = None
        if len(o) == 1 and o[0][1].a['lo'] is not None:
            L = o[0]
            i = L[1].a['i']
            ok = True if L[1].a.get('C') == par and not L[2] and C is not None and S.has(C, i) else Q.covers(L, lambda x: x == ('size', par)) if C is not None and S.has(C, i) else None
        cs = [c for c in Q.conds(ctx)]
        if cs:
            ok = False if understood(cs) and ok else None
        rep.judge(ok, 'R5', n.at, fn['q'] + ': all the factors of the list are multiplied')
        # position
        lv = n.a['lv']
        pos = None
        if lv[0] == 'deref' and lv[1][0] == 'phi':
            pos = True
            for n2, c2 in evs:
                if n2.k == 'ev' and n2.a['ek'] == 'setv' and n2.a['v'] == ('+', lv[1], S.lit(1)):
                    inl = [c for c in c2 if c[0] == 'loop']
                    if inl and inl[-1] == h and len(Q.conds(c2[c2.index(h):])) > 0:
                        pos = False
        elif lv[0] == 'ix':
            pos = True if lv[2] == h[1].a['i'] else False if Q.arith(lv[2]) else None
        rep.judge(pos, 'R5', n.at, fn['q'] + ': position by position')
        if C is not None and C[0] == 'hof':
            tr = ''.join(str(x) for x in S.all_t(C, lambda x: True)[0])
            flag = str(C)
            rep.judge(False if "'f', 'a', 'l', 's', 'e'" in flag else True if "'t', 'r', 'u', 'e'" in flag else None, 'R5', n.at, fn['q'] + ': the images multiplied are those after the weights')


# ------------------------------------------------------------------- answers
def answers(p, rep, m):
    f = m.f
    for fn in p.fns(QM + '::getHiddenSetMAP'):
        if not fn.get('body'):
            continue
        rep.fn(fn)
        evs = Q.walk(S.Sym(p, keep=KEEP).build(fn))
        at = (fn['file'], fn['l'])
        single(rep, m, fn, evs)
        pu = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'mut' and n.a['op'] == 'push' and n.a['v'] is not None and 'unsigned long' in (n.a.get('t') or '')]
        if len(pu) != 1 or len(Q.loops(pu[0][1])) != 1:
            rep.und('R6', at, fn['q'] + ': one value for each hidden variable')
            continue
        n, ctx = pu[0]
        L = Q.loops(ctx)[0]
        cov = True if L[1].a.get('C') is not None and not L[2] else Q.covers(L, lambda h: h[0] == 'size')
        cs = [c for c in Q.conds(ctx) if not alt_cond(c)]
        rep.judge(cov if not cs else False if understood(cs) and cov else None, 'R6', n.at, fn['q'] + ': one value for each hidden variable')
        rep.judge(True if not n.a.get('front') else False, 'R6', n.at, fn['q'] + ': in their order')
        argmax(rep, fn, n, n.a['v'], evs)
        # the node is the one of the variable of the iteration
        C = L[1].a.get('C')
        i = L[1].a['i']
        used = {x for e, c in evs if L in c and e.k == 'ev' for z in e.a.values() if isinstance(z, tuple) for x in S.all_t(z, lambda y: y[0] == 'val' and m.role(y[1]) == 'nodes')}
        want = {('val', x[1], ('ix', C, i)) for x in used} if C is not None else set()
        if used:
            rep.judge(True if used <= want else False if all(S.is_num(x[2][2]) or Q.arith(x[2][2]) for x in used if x[2][0] == 'ix') and all(x[2][0] == 'ix' for x in used) else None, 'R6', n.at,
                      fn['q'] + ': read from the node of the variable')
    by_name(p, rep)
    for fn in p.fns(QM + '::getMAP'):
        if not fn.get('body') or 'basic_string' in fn['params'][0]['t']:
            continue
        rep.fn(fn)
        t = S.Sym(p, keep=KEEP).build(fn)
        evs = Q.walk(t)
        single(rep, m, fn, evs)
        rets = [n for n, c in evs if n.k == 'ret' and n.a.get('v') is not None]
        if rets:
            argmax(rep, fn, rets[-1], rets[-1].a['v'], evs)
    for fn in p.fns(QM + '::getMarginalDistribution'):
        if not fn.get('body') or 'Variable' not in fn['params'][0]['t']:
            continue
        rep.fn(fn)
        evs = Q.walk(S.Sym(p, keep=KEEP).build(fn))
        at = (fn['file'], fn['l'])
        single(rep, m, fn, evs)
        par = ('p', 0, fn['params'][0]['n'])
        loc = [n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'locate']
        rep.judge(True if loc and all(n.a['args'] == (par,) for n in loc) else None, 'R6', at, fn['q'] + ': the variable that was asked')
        one = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'ix' and not Q.loops(c) and S.any_t(n.a['lv'][2], lambda x: x[0] == 'alt')]
        fixed = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'set' and n.a['lv'][0] == 'ix' and not Q.loops(c) and Q.arith(n.a['lv'][2])]
        for n, c in one:
            rep.judge(True if n.a['v'] == S.lit(1) else False if S.is_num(n.a['v']) else None, 'R6', n.at, fn['q'] + ': the value of an evidence has probability 1')
            x = n.a['lv'][2]
            rep.judge(True if evidence(x) else False if x[0] in ('+', '-', '*', '/', '%') and any(evidence(y) for y in x[1:] if isinstance(y, tuple)) else None, 'R6', n.at,
                      fn['q'] + ': at the place of that value')
        if not one:
            rep.judge(False if fixed else None, 'R6', at, fn['q'] + ': the value of an evidence has probability 1')


def single(rep, m, fn, evs):
    """an answer read from one contribution only"""
    f = m.f
    for n, ctx in evs:
        if n.k != 'ev' or n.a['ek'] != 'call' or n.a['n'] != 'getProbabilities' or not n.a.get('o'):
            continue
        o = n.a['o']
        while o[0] == 'deref':
            o = o[1]
        if o[0] != 'mem' or o[2] not in (f['message'], f['merged']):
            continue
        ok = None
        if o[2] == f['message']:
            b = o[1]
            ok = False if b[0] == 'val' and b[1][0] == 'mem' and b[1][2] in (f['active'], f['disabled']) else None
        else:
            none = [c for c in Q.conds(ctx) if c[2] and c[1] == S.rel('==', ('size', S.mem(o[1], f['active'])), S.lit(0))]
            ok = True if none else False if not Q.conds(ctx) else None
        rep.judge(ok, 'R6', n.at, fn['q'] + ': the whole belief, not one contribution')


def by_name(p, rep):
    """the queries by name ask for the variable found under that name"""
    for nm in ('getMAP', 'getMarginalDistribution', 'getJointMarginalDistribution'):
        fs = [fn for fn in p.fns(QM + '::' + nm) if fn.get('body') and 'string' in fn['params'][0]['t']]
        for fn in fs:
            rep.fn(fn)
            evs = Q.walk(S.Sym(p, keep={nm, 'findVariable'}).build(fn))
            par = ('p', 0, fn['params'][0]['n'])
            what = fn['q'] + ': the variables found under the names that were given'
            ca = [(n, c) for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == nm]
            fv = {n.a['r']: n for n, c in evs if n.k == 'ev' and n.a['ek'] == 'call' and n.a['n'] == 'findVariable'}
            if len(ca) != 1:
                rep.und('R6', (fn['file'], fn['l']), what)
                continue
            n, ctx = ca[0]
            a = B.strip(n.a['args'][0])
            th = n.a['args'][1] if len(n.a['args']) > 1 else None
            if not par[2] or nm != 'getJointMarginalDistribution':
                ok = True if a in fv and fv[a].a['args'] and B.strip(fv[a].a['args'][0]) == par else False if a in fv or a[0] in ('ix', 'back', 'val', 'lit') and not S.has(a, par) else None
                rep.judge(ok, 'R6', n.at, what)
            if th is not None:
                rep.judge(True if th == ('p', 1, fn['params'][1]['n']) else False if S.is_num(th) else None, 'R6', n.at, fn['q'] + ': with the threads that were asked')


def argmax(rep, fn, n, v, evs):
    """index of the first greatest element"""
    ok = None
    if v[0] == 'out' and len(v) >= 5 and isinstance(v[4], tuple) and v[4][0] == 'cond':
        c, a, b = v[4][1:4]
        neg = False
        while c[0] == '!':
            c, neg = c[1], not neg
        if c[0] == 'rel' and c[1] in ('<', '<=') and v[3] == S.lit(0):
            new = a if not neg else b
            old = b if not neg else a
            if c[3][0] == 'ix' and c[3][2] == new:
                best, elem, up = c[2], c[3], True
            elif c[2][0] == 'ix' and c[2][2] == new:
                best, elem, up = c[3], c[2], False
            else:
                best = None
            if best is not None:
                if best[0] == 'phi':
                    # the best so far is replaced with the element, whenever the index is
                    w = [(e, x) for e, x in evs if e.k == 'ev' and e.a['ek'] == 'setv' and e.a.get('d') == best[2]]
                    mine = [(e, x) for e, x in w if e.a['v'] == elem]
                    other = [e for e, x in w if e.a['v'] != elem and S.has(e.a['v'], new)]
                    follows = True if mine and not other else None
                elif best == ('ix', elem[1], old):
                    follows = True
                else:
                    follows = False if best == ('ix', elem[1], S.lit(0)) or S.is_num(best) else None
                right = up != neg
                ok = follows if right else False
                for e in {z[1] for _, x in evs for z in x if z[0] == 'loop'}:
                    if e.a['i'] == ('i', v[1]) and ok:
                        full = e.a['hi'] == ('size', elem[1])
                        lo = e.a['lo'] in (S.lit(0), S.lit(1))
                        if not full and e.a['hi'] is not None and e.a['hi'][0] in ('-', '+') and S.has(e.a['hi'], ('size', elem[1])) or e.a['lo'] is not None and S.is_num(e.a['lo']) and not lo:
                            ok = False
    elif v[0] == 'index' and v[1][0] in ('maxit', 'max'):
        ok = True
    elif v[0] == 'index' and v[1][0] in ('minit', 'min'):
        ok = False
    elif v[0] in ('lit',) or S.is_num(v):
        ok = False
    rep.judge(ok, 'R6', n.at, fn['q'] + ': the value with the greatest probability')
