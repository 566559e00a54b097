"""What a list contains when it is used: items pushed before, with the loops and conditions of each."""
import sym as S
import seqs as Q


class Item:
    """v: value; ctx: loops and conditions between the declaration and the push; neg: items taken away"""

    def __init__(self, v, ctx, at, neg=False):
        self.v, self.ctx, self.at, self.neg = v, ctx, at, neg

    def __repr__(self):
        return ('-' if self.neg else '') + S.show(self.v) if hasattr(S, 'show') else repr(self.v)


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ('listof', 'move', 'setof'):
        t = t[1]
    return t


def rel(ctx, base):
    k = 0
    while k < len(ctx) and k < len(base) and ctx[k] == base[k]:
        k += 1
    return ctx[k:]


def content(evs, L, upto, depth=0):
    """[Item] or None"""
    L = strip(L)
    if depth > 4:
        return None
    if L[0] == 'list':
        return [Item(x, (), None) for x in L[1:]]
    if L[0] != 'var':
        return None
    start = -1
    for k in range(upto - 1, -1, -1):
        n = evs[k][0]
        if n.k == 'ev' and n.a['ek'] == 'decl' and n.a['lv'] == L:
            start = k
            break
    if start < 0:
        return None
    base = evs[start][1]
    out = []
    v0 = evs[start][0].a.get('v')
    if v0 is not None:
        v0 = strip(v0)
        if v0[0] == 'var':
            out = content(evs, v0, start, depth + 1)
            if out is None:
                return None
            # copied: what is pushed in the source afterwards does not count
        elif v0[0] == 'list':
            out = [Item(x, (), evs[start][0].at) for x in v0[1:]]
        elif v0[0] == 'ctor' and not v0[2]:
            out = []
        else:
            return None
    for k in range(start + 1, upto):
        n, ctx = evs[k]
        if n.k != 'ev':
            continue
        a = n.a
        if a['ek'] == 'mut' and a['C'] == L:
            r = rel(ctx, base)
            if a['op'] == 'push' and a['v'] is not None:
                out.append(Item(a['v'], r, n.at))
            elif a['op'] == 'insert' and a['v'] is None and a['key'] is not None:
                out.append(Item(a['key'], r, n.at))
            elif a['op'] == 'erase' and a['key'] is not None:
                out.append(Item(a['key'], r, n.at, True))
            elif a['op'] == 'insert_all' and a['key'] is not None:
                src = strip(a['key'])
                sub = content(evs, src, k, depth + 1) if src[0] in ('var', 'list') else None
                if sub is None:
                    return None
                out += [Item(x.v, r + tuple(x.ctx), n.at, x.neg) for x in sub]
            elif a['op'] in ('reserve', 'shrink_to_fit', 'clear') and not out:
                pass
            elif a['op'] == 'reserve':
                pass
            elif a['op'] == 'clear' and not r:
                out = []
            else:
                return None
        elif a['ek'] == 'set' and a['lv'] == L:
            if a['v'] == ('list',):
                out = []
            else:
                sub = content(evs, a['v'], k, depth + 1)
                if sub is None or rel(ctx, base):
                    return None
                out = sub
        elif a['ek'] == 'set' and S.has(a['lv'], L):
            return None
        elif a['ek'] == 'opq':
            return None
        elif a['ek'] == 'call' and not a.get('cst') and any(isinstance(x, tuple) and S.has(x, L) for x in a.get('args') or ()) and a['n'] not in ('parallelFor',):
            return None
    return out
