"""Positions in a group of two variables, evaluated for each of the two places a variable may have in it."""
import sym as S

FUN = 'EFG::factor::Function'


class Case:
    """G: term of the ordered variables of the binary factor; known: {term: 0|1} variables with their position"""

    def __init__(self, G, known, alias=None, samesize=None):
        """samesize: whether the two variables have the same number of values (None: not considered)"""
        self.G, self.known, self.alias, self.samesize = G, known, alias or {}, samesize

    def var(self, t):
        """position of a variable"""
        r = self.ev(t)
        return r[1] if r and r[0] == 'v' else None

    def num(self, t):
        r = self.ev(t)
        return r[1] if r and r[0] == 'n' else None

    def truth(self, t):
        r = self.ev(t)
        return r[1] if r and r[0] == 'b' else None

    def ev(self, t, depth=0):
        if not isinstance(t, tuple) or not t or depth > 40:
            return None
        d = depth + 1
        if t in self.known:
            return ('v', self.known[t])
        if t in self.alias:
            return self.ev(self.alias[t], d)
        k = t[0]
        if k == 'lit' and S.is_num(t) and isinstance(t[1], (int, float)):
            return ('n', int(t[1])) if t[1] == int(t[1]) else None
        if k == 'bool':
            return ('b', bool(t[1]))
        if k in ('deref', 'addr', 'move') and len(t) == 2:
            return self.ev(t[1], d)
        if k == 'back' and t[1] == self.G:
            return ('v', 1)
        if k == 'front' and t[1] == self.G:
            return ('v', 0)
        if k == 'ix':
            if t[1] == self.G:
                r = self.ev(t[2], d)
                return ('v', r[1]) if r and r[0] == 'n' and r[1] in (0, 1) else None
            x = only(t[1])
            if x is not None and t[2] == S.lit(0):
                return self.ev(x, d)
            if t[1][0] in ('list', 'pair'):
                r = self.ev(t[2], d)
                if r and r[0] == 'n' and r[1] + 1 < len(t[1]):
                    return self.ev(t[1][r[1] + 1], d)
            return None
        if k == 'mem' and t[1][0] in ('pair', 'cond') and t[2] in ('first', 'second'):
            b = t[1]
            if b[0] == 'cond':
                c = self.ev(b[1], d)
                if not c or c[0] != 'b':
                    return None
                b = b[2] if c[1] else b[3]
            if b[0] == 'pair':
                return self.ev(b[1] if t[2] == 'first' else b[2], d)
            return None
        if k == 'mem' and t[2] == 'size_':
            r = self.ev(t[1], d)
            return ('z', r[1]) if r and r[0] == 'v' else None
        if k == 'cond':
            c = self.ev(t[1], d)
            if not c or c[0] not in 'bn':
                return None
            return self.ev(t[2] if c[1] else t[3], d)
        if k == '!':
            c = self.ev(t[1], d)
            return ('b', not c[1]) if c and c[0] in 'bn' else None
        if k in ('&&', '||'):
            a, b = self.ev(t[1], d), self.ev(t[2], d)
            if not a or not b:
                return None
            return ('b', bool(a[1] and b[1]) if k == '&&' else bool(a[1] or b[1]))
        if k == 'rel':
            a, b = self.ev(t[2], d), self.ev(t[3], d)
            if not a or not b or a[0] != b[0]:
                return None
            if a[0] == 'z':
                if a[1] == b[1]:
                    return ('b', t[1] in ('==', '<='))
                if self.samesize is None or t[1] not in ('==', '!=') and not self.samesize:
                    return None
                return ('b', self.samesize if t[1] in ('==', '<=') else not self.samesize if t[1] == '!=' else False)
            if t[1] == '==':
                return ('b', a[1] == b[1])
            if t[1] == '!=':
                return ('b', a[1] != b[1])
            if a[0] == 'n' and t[1] in ('<', '<='):
                return ('b', a[1] < b[1] if t[1] == '<' else a[1] <= b[1])
            return None
        if k in ('+', '-', '*', '%') and len(t) == 3:
            a, b = self.ev(t[1], d), self.ev(t[2], d)
            if not a or not b:
                return None
            x, y = int(a[1]), int(b[1])
            if a[0] in 'vz' or b[0] in 'vz':
                return None
            if k == '%':
                return ('n', x % y) if y else None
            return ('n', x + y if k == '+' else x - y if k == '-' else x * y)
        if k in ('index', 'find', 'pick'):
            q = position(t)
            if q and q[0] == self.G:
                r = self.ev(q[1], d)
                return ('n', r[1]) if r and r[0] == 'v' else None
        return None


def only(g):
    """the variable of a group made of one"""
    if g[0] == 'mem' and g[1][0] == 'mem' and g[1][1][0] in ('make', 'ctor') and str(g[1][1][1]).endswith('Function') and len(g[1][1][2]) == 1:
        x = g[1][1][2][0]
        if x[0] in ('make', 'ctor') and str(x[1]).endswith('Group') and len(x[2]) == 1:
            x = x[2][0]
        if x[0] == 'list' and len(x) == 2:
            x = x[1]
        return x
    return None


def position(t):
    """(sequence, element) when the term is the position of the element in the sequence"""
    while t[0] in ('deref',) and len(t) == 2:
        t = t[1]
    if t[0] == 'cond' and t[3] in (S.NULLOPT, S.NULL):
        return position(t[2])
    if t[0] == 'index' and t[1][0] == 'find':
        return t[1][1], t[1][2]
    if t[0] == 'index' and t[1][0] == 'findi':
        return _scan(t[1][2], t[1][3])
    if t[0] == 'pick' and len(t) == 4:
        r = _scan(t[1], t[2])
        return r if r and t[3] == ('i', t[1][1]) else None
    return None


def loose(t):
    """the position of the first element with the same size"""
    while t[0] in ('deref',) and len(t) == 2:
        t = t[1]
    if t[0] == 'cond':
        return loose(t[2])
    if t[0] == 'index' and t[1][0] == 'findi':
        t = t[1]
        c = t[3]
    elif t[0] == 'pick' and len(t) == 4:
        c = t[2]
    else:
        return False

    def alt(c):
        if c[0] == '||':
            return alt(c[1]) or alt(c[2])
        return c[0] == 'rel' and c[1] == '==' and all(x[0] == 'mem' and x[2] == 'size_' for x in c[2:4])
    return alt(c)


def _scan(lp, c):
    if lp[0] != 'loop' or lp[2] != S.lit(0) or c[0] != 'rel' or c[1] != '==':
        return None
    i = ('i', lp[1])
    for a, b in ((c[2], c[3]), (c[3], c[2])):
        if a[0] == 'ix' and a[2] == i and not S.has(b, i) and lp[3] == ('size', a[1]):
            return a[1], b
    return None


def sized(evs):
    """sizes of variables are compared: both outcomes are to be considered"""
    sz = lambda x: x[0] == 'mem' and x[2] == 'size_'
    hit = lambda t: isinstance(t, tuple) and S.any_t(t, lambda x: x[0] == 'rel' and sz(x[2]) and sz(x[3]))
    return (True, False) if any(c[0] == 'if' and hit(c[1]) for _, ctx in evs for c in ctx) or any(hit(v) for n, _ in evs if n.k == 'ev' for v in n.a.values()) else (None,)


def by_size(t):
    """the element is looked for by the size of the variable"""
    sz = lambda x: x[0] == 'mem' and x[2] == 'size_'
    while t[0] in ('deref',) and len(t) == 2:
        t = t[1]
    if t[0] == 'cond' and t[3] in (S.NULLOPT, S.NULL):
        return by_size(t[2])
    c = t[1][3] if t[0] == 'index' and t[1][0] == 'findi' else t[2] if t[0] == 'pick' and len(t) == 4 else None
    return c is not None and c[0] == 'rel' and c[1] == '==' and sz(c[2]) and sz(c[3])
