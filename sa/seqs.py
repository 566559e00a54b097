"""What a piece of code does to the elements of sequences: events with the loops and conditions around them."""
import sym as S
import prog as P


def ends_flow(ss):
    """'cont' / 'break' / 'ret' / 'throw' when the statements never fall through"""
    if not ss:
        return None
    n = ss[-1]
    if n.k == 'continue':
        return 'cont'
    if n.k in ('break', 'ret', 'throw'):
        return n.k
    if n.k == 'seq':
        return ends_flow(n.a['s'])
    if n.k == 'if':
        a, b = ends_flow(n.a['a'].a['s']), ends_flow(n.a['b'].a['s'])
        if a and b:
            return a if a == b else ('ret' if 'ret' in (a, b) else a if a != 'throw' else b)
    if n.k == 'scope' and ends_flow(n.a['b'].a['s']) == 'throw':
        return 'throw'
    return None


def leaves(n, inloop=False):
    """can the loop body n be left before the last iteration (not by exception)"""
    k = n.k
    if k == 'ret':
        return True
    if k == 'break':
        return not inloop
    if k == 'seq':
        return any(leaves(x, inloop) for x in n.a['s'])
    if k == 'if':
        return leaves(n.a['a'], inloop) or leaves(n.a['b'], inloop)
    if k == 'loop':
        return n.a['body'] is not None and leaves(n.a['body'], True)
    if k == 'try':
        return leaves(n.a['b'], inloop) or any(leaves(h, inloop) for h in n.a['h'])
    return False


def exits(n, ctx=(), inloop=False):
    """conditions under which the loop body n leaves the loop, one list for each place"""
    k = n.k
    if k == 'ret' or k == 'break' and not inloop:
        return [list(ctx)]
    if k == 'seq':
        return [y for x in n.a['s'] for y in exits(x, ctx, inloop)]
    if k == 'if':
        return exits(n.a['a'], ctx + (('if', n.a['c'], True),), inloop) + exits(n.a['b'], ctx + (('if', n.a['c'], False),), inloop)
    if k == 'loop' and n.a['body'] is not None:
        return exits(n.a['body'], ctx + (('if', ('unknown', 'loop'), True),), True)
    if k == 'try':
        return [x for h in [n.a['b']] + list(n.a['h']) for x in exits(h, ctx + (('if', ('unknown', 'try'), True),), inloop)]
    return []


def walk(n, ctx=(), out=None, tasks=True):
    """[(event, context)], context: ('loop', N, partial) ('if', c, polarity) ('task', N) ('try',) ('scope', name)"""
    if out is None:
        out = []
    k = n.k
    if k == 'seq':
        more = ctx
        for x in n.a['s']:
            walk(x, more, out, tasks)
            if x.k == 'if':
                a, b = ends_flow(x.a['a'].a['s']), ends_flow(x.a['b'].a['s'])
                if a and a != 'throw' and not b:
                    more = more + (('if', x.a['c'], False),)
                elif b and b != 'throw' and not a:
                    more = more + (('if', x.a['c'], True),)
    elif k == 'if':
        # a branch that throws leaves the other unconditional
        ta, tb = ends_flow(n.a['a'].a['s']) == 'throw', ends_flow(n.a['b'].a['s']) == 'throw'
        walk(n.a['a'], ctx if tb else ctx + (('if', n.a['c'], True),), out, tasks)
        walk(n.a['b'], ctx if ta else ctx + (('if', n.a['c'], False),), out, tasks)
    elif k == 'loop':
        if n.a.get('pre'):
            walk(n.a['pre'], ctx, out, tasks)
        walk(n.a['body'], ctx + (('loop', n, leaves(n.a['body'])),), out, tasks)
    elif k == 'scope':
        walk(n.a['b'], ctx, out, tasks)
    elif k == 'try':
        walk(n.a['b'], ctx + (('try',),), out, tasks)
        for h in n.a['h']:
            walk(h, ctx + (('if', ('unknown', 'exception'), True),), out, tasks)
    else:
        out.append((n, ctx))
        if tasks and k == 'ev' and n.a.get('task'):
            walk(n.a['task'], ctx + (('task', n),), out, tasks)
    return out


def loops(ctx):
    return [c for c in ctx if c[0] == 'loop']


def conds(ctx):
    return [c for c in ctx if c[0] == 'if']


def loop_of(ctx, i):
    for c in ctx:
        if c[0] == 'loop' and c[1].a['i'] == i:
            return c
    return None


def arith(t):
    """made of loop indices, sizes and numbers only"""
    if t[0] in ('i', 'size') or S.is_num(t):
        return True
    if t[0] in ('+', '-', '*', '/', '%'):
        return all(arith(x) for x in t[1:] if isinstance(x, tuple))
    return False


def same_index(a, b):
    if a == b:
        return True
    if arith(a) and arith(b):
        return False
    return None


def covers(l, issize):
    """does the loop visit 0, 1, .. up to a size accepted by issize; None: not understood"""
    n, partial = l[1], l[2]
    if partial:
        return None
    lo, hi, st = n.a['lo'], n.a['hi'], n.a['step']
    if lo is None or hi is None:
        return None
    if n.a['lk'] == 'hof':
        return True
    if st != 1 and st != S.lit(1):
        return False if isinstance(st, int) or st is not None and S.is_num(st) else None
    if not S.is_num(lo):
        return None
    if lo[1] != 0:
        return False
    if issize(hi):
        return True
    if hi[0] in ('-', '+') and issize(hi[1]) and S.is_num(hi[2]):
        return False
    if hi[0] == '/' and issize(hi[1]):
        return False
    return None


def worst(vs):
    vs = list(vs)
    if any(v is False for v in vs):
        return False
    if any(v is None for v in vs):
        return None
    return True


def opaque_use(evs, C):
    """is the container handed to something that is not understood"""
    for n, ctx in evs:
        if n.k != 'ev':
            continue
        if n.a['ek'] == 'call' and not n.a.get('cst') and any(isinstance(x, tuple) and S.has(x, C) for x in n.a.get('args') or ()):
            if n.a['n'] not in ('parallelFor',):
                return True
        if n.a['ek'] in ('opq',):
            return True
    return False


def pos(evs, n):
    for i, (x, _) in enumerate(evs):
        if x is n:
            return i
    return -1


def touches(f, field):
    """does the body name the field"""
    hit = []

    def v(n):
        if n.get('k') == 'mem' and n.get('f') == field:
            hit.append(n)
    P.walk(f['body'], v)
    return bool(hit)


def skips(evs, idx, ctx):
    """a position kept in a variable that advances only in some of the iterations of the loop around"""
    if idx[0] != 'phi':
        return False
    for n, c in evs:
        if n.k == 'ev' and n.a['ek'] == 'setv' and n.a['v'] == ('+', idx, S.lit(1)):
            ls = [x for x in c if x[0] == 'loop']
            if ls and ls[-1] in ctx and any(x[0] == 'if' for x in c[c.index(ls[-1]):]) and not any(x[0] == 'if' for x in ctx[ctx.index(ls[-1]):]):
                return True
    return False


def holds_small(c, pol, C):
    """may the condition fail for a sequence with 1, 2 or 3 elements; None: not understood"""
    def ev(t, n):
        if t == ('size', C):
            return n
        if S.is_num(t):
            return t[1]
        if t[0] in ('+', '-') and len(t) == 3:
            a, b = ev(t[1], n), ev(t[2], n)
            return None if a is None or b is None else a + b if t[0] == '+' else a - b
        if t[0] == 'rel':
            a, b = ev(t[2], n), ev(t[3], n)
            if a is None or b is None:
                return None
            return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b}.get(t[1])
        if t[0] == '!':
            a = ev(t[1], n)
            return None if a is None else not a
        return None
    for n in (1, 2, 3, 8):
        v = ev(c, n)
        if v is None:
            return None
        if bool(v) != pol:
            return False
    return True


def calls(f, usr):
    """does the body call the function"""
    hit = []

    def v(n):
        if n.get('k') == 'call' and n.get('c') == usr:
            hit.append(n)
    P.walk(f['body'], v)
    return bool(hit)


def arith_cond(c):
    """a comparison of positions and numbers only"""
    if c[0] == 'rel':
        return arith(c[2]) and arith(c[3])
    if c[0] == '!':
        return arith_cond(c[1])
    if c[0] in ('&&', '||'):
        return arith_cond(c[1]) and arith_cond(c[2])
    return False


def counter(evs, t, L):
    """the index of the loop when t is a variable that starts at 0 and advances by one at each iteration"""
    if t[0] != 'phi' or L is None or t[1] != L[1].a['lid']:
        return t
    start, steps = None, []
    for n, c in evs:
        if n.k != 'ev':
            continue
        if n.a['ek'] == 'decl' and n.a['lv'][0] == 'var' and n.a['lv'][1] == t[2]:
            start = n.a.get('v')
        elif n.a['ek'] == 'setv' and n.a['d'] == t[2]:
            steps.append((n, c))
    if start == S.lit(0) and len(steps) == 1 and steps[0][0].a['v'] == ('+', t, S.lit(1)) and steps[0][1] and steps[0][1][-1] == L:
        return L[1].a['i']
    return t
