"""Guards: what is known to hold wherever an operation completes."""
import sym as S
import flow as F
import ctypes_ as T


class Names:
    """private fields found by their type"""

    def __init__(self, p):
        self.p = p

    def field(self, rec, test, default):
        r = self.p.record(rec)
        if r:
            c = [x['n'] for x in r['f'] if test(x['t'])]
            if default in c:
                return default
            if c:
                return c[0]
        return default

    @property
    def vsize(self):
        return self.field('EFG::categoric::Variable', lambda t: 'long' in t, 'size_')

    @property
    def vname(self):
        return self.field('EFG::categoric::Variable', lambda t: 'basic_string' in t, 'name_')


def param(f, test, k=0):
    """k-th parameter whose type passes the test"""
    n = 0
    for i, a in enumerate(f['params']):
        if test(a.get('t') or ''):
            if n == k:
                return ('p', i, a['n'])
            n += 1
    return None


def inner(f):
    """(quantifiers, matrix) of a fact"""
    q = []
    while f[0] == 'all':
        q.append(f[1])
        f = f[2]
    return q, f


def full(q, sizes=None):
    """does the quantifier start at 0, step 1 and reach the whole size; None: unknown"""
    lo, hi, st = q[1], q[2], q[3]
    if st != 1:
        return False
    if S.is_num(lo) and lo[1] != 0:
        return False
    if not S.is_num(lo):
        return None
    if hi[0] == '-' and S.is_num(hi[2]) and hi[2][1] > 0:
        return False
    if hi[0] in ('size', 'mem', 'p', 'endof', 'val'):
        return True
    return None


class G:
    """a goal: ok(matrix, quantifiers) -> True / False (a weaker condition) / None (unrelated).
    keys: predicates; a condition on all of them that is not understood leaves the goal undecided"""

    def __init__(self, text, ok, keys=(), quant=0, ors=False, known=None):
        self.known = known      # facts that are understood and have nothing to say
        self.ors = ors
        self.text = text
        self.ok = ok
        self.keys = keys
        self.quant = quant

    def judge(self, facts):
        best = 'no'
        m = None
        for f in facts:
            q, x = inner(f)
            if x[0] == 'or' and not self.ors:
                continue
            r = self.ok(x, q)
            if r is True and self.quant:
                fs = [full(y) for y in q]
                if len(q) < self.quant:
                    r = None
                elif False in fs:
                    r = False
                elif None in fs:
                    r = None
                    best = 'maybe' if best != 'weak' else best
            if r is True:
                return True
            if r is False:
                best = 'weak'
        if best == 'weak':
            return False
        if best == 'maybe':
            return None
        if not self.ors:
            r = self.cases(facts)
            if r is not None:
                return r
        if self.keys:
            for f in facts:
                if self.known and self.known(inner(f)[1]):
                    continue
                if all(any_atom(f, k) for k in self.keys):
                    return None
        return False


    def cases(self, facts):
        """an alternative between understood conditions: the goal has to follow from each of them"""
        for f in facts:
            if f[0] != 'or' or not self.keys or not all(any_atom(f, k) for k in self.keys):
                continue
            if not all(plain(a) for alt in f[1] for a in alt):
                continue
            rest = [x for x in facts if x is not f]
            rs = [self.judge(rest + list(alt)) for alt in f[1] if not any(negated(a) in rest for a in alt)]
            if rs and all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        return None


def negated(a):
    if a[0] == '!':
        return a[1]
    if a[0] == 'rel':
        op, x, y = a[1:]
        return {'<': ('rel', '<=', y, x), '<=': ('rel', '<', y, x), '==': ('rel', '!=', x, y), '!=': ('rel', '==', x, y)}.get(op, ('!', a))
    return ('!', a)


def plain(a):
    """a comparison between parameters, fields, sizes and constants"""
    if a[0] == '!':
        return plain(a[1])
    if a[0] != 'rel':
        return False
    return all(simple(x) for x in a[2:])


def simple(t):
    if not isinstance(t, tuple) or not t:
        return True
    if S.is_num(t) or t[0] in ('p', 'this', 'str'):
        return True
    if t[0] in ('mem', 'size', 'deref', 'ix', '+', '-', '*'):
        return all(simple(x) for x in t[1:] if isinstance(x, tuple))
    return False


def any_atom(f, pred):
    if f[0] == 'or':
        return any(any_atom(a, pred) for alt in f[1] for a in alt)
    return S.any_t(f, pred)


def pairs(x):
    """relations of an atom: (op, a, b) with negations applied"""
    if x[0] == 'rel':
        return [(x[1], x[2], x[3])]
    if x[0] == '!' and x[1][0] == 'rel':
        _, op, a, b = x[1]
        return [('<=', b, a)] if op == '<' else [('!=', a, b)]
    return []


def lt(isa, isb):
    """a < b"""
    def ok(x, q):
        for op, a, b in pairs(x):
            if isa(a) and isb(b):
                return op == '<' if op in ('<', '<=', '!=') else None
            if isa(b) and isb(a) and op in ('!=',):
                return False
        return None
    return ok


def ge0(isa):
    def ok(x, q):
        for op, a, b in pairs(x):
            if op == '<=' and S.is_num(a) and isa(b):
                return a[1] >= 0
            if op == '<' and S.is_num(a) and isa(b):
                return a[1] >= 0
        return None
    return ok


def ne0(isa):
    def ok(x, q):
        for op, a, b in pairs(x):
            if op == '!=' and isa(a) and b == S.lit(0):
                return True
            if op == '<' and a == S.lit(0) and isa(b):
                return True
        return None
    return ok


def eq(isa, isb):
    def ok(x, q):
        for op, a, b in pairs(x):
            if isa(a) and isb(b) or isa(b) and isb(a):
                return op == '=='
        return None
    return ok


def ne(isa, isb):
    def ok(x, q):
        for op, a, b in pairs(x):
            if isa(a) and isb(b) or isa(b) and isb(a):
                return op == '!='
        return None
    return ok


def is_(t):
    return lambda x: x == t


def has(t):
    return lambda x: S.has(x, t)


def isset(t):
    def ok(x, q):
        if x == ('isset', t):
            return True
        return None
    return ok


def exits(p, f, keep=(), path=True, client=None, cap=300):
    sy = S.Sym(p, keep=keep)
    t = sy.build(f)
    fl = F.Flow(client, cap=cap, path=path)
    ex = fl.run(t)
    return t, fl, ex


def check(rep, rule, f, states, goals):
    for g in goals:
        v = True
        for facts, may in states:
            r = g.judge(facts)
            if r is False:
                v = False
                break
            if r is None:
                v = None
        rep.judge(v, rule, (f['file'], f['l']), '%s completes only if %s' % (f['q'], g.text))
