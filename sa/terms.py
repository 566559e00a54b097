"""Terms (values and locations) and abstract states of the analysis.

Values      ('c',v) constant            ('p',L) address of L
            ('ld',L) what L held when the analysed entry point was called
            ('it',C,key) iterator       ('itend',C) end iterator
            ('itf',C,key) result of C.find(key)
            ('fn',lambda,caps,this) closure      ('obj',L) the object living at L
            ('mk',cls,site,args) freshly allocated object of class cls
            ('op',o,a,b) ('sz',C) ('call',f,args) symbolic results
            ('top',) anything
            ('g',loop) element visited by a loop, ('o',x) elements visited before,
            ('all',C) every element C had, ('q',site,x) elements added at a site,
            ('m',loop,q) one of such elements, ('nx',site) next iterator key
Locations   ('L',frame,decl) ('T',frame,node) ('F',base,field) ('D',value)
            ('E',container,key) ('N',site) ('G',decl) ('O',name)
"""
TOP = ('top',)
TRUE = ('c', True)
FALSE = ('c', False)
NULL = ('c', None)

_tid = {}


def tid(t):
    i = _tid.get(t)
    if i is None:
        i = _tid[t] = len(_tid)
    return i


_subst_cache = {}


ATOMIC = frozenset(('g', 'm', 'nx', 'lv', 'o', 'q', 'pk', 'k'))
SYMT = ATOMIC | frozenset(('all', 'b', 'back', 'sz', 'mk', 'ld'))
_subs = {}


def subs(t):
    """the symbols a term mentions"""
    r = _subs.get(t)
    if r is None:
        if t and isinstance(t[0], str) and t[0] in ATOMIC and len(t) > 1:
            r = frozenset((t,))
        else:
            r = frozenset((t,)) if t and t[0] in SYMT and len(t) > 1 else frozenset()
            for x in t:
                if isinstance(x, tuple):
                    y = subs(x)
                    if y:
                        r = r | y if r else y
        if len(_subs) > 600000:
            _subs.clear()
        _subs[t] = r
    return r


def mentions(t, a):
    if t == a:
        return True
    if not isinstance(t, tuple):
        return False
    if a[0] in SYMT:
        return a in subs(t)
    for x in t:
        if isinstance(x, tuple) and mentions(x, a):
            return True
    return False


def subst(t, a, b):
    if t == a:
        return b
    if not isinstance(t, tuple) or not t or (t[0] in ATOMIC and len(t) > 1):
        return t
    if a[0] in SYMT and a not in subs(t):
        return t
    k = (t, a, b)
    r = _subst_cache.get(k)
    if r is not None:
        return r
    changed = False
    out = []
    for x in t:
        if isinstance(x, tuple):
            y = subst(x, a, b)
            if y is not x:
                changed = True
            out.append(y)
        else:
            out.append(x)
    r = tuple(out) if changed else t
    if changed:
        r = norm(r)
    if len(_subst_cache) > 400000:
        _subst_cache.clear()
    _subst_cache[k] = r
    return r


def norm(t):
    if t and t[0] == 'D' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'p':
        return t[1][1]
    return t


_depth = {}


def depth(t):
    if not isinstance(t, tuple):
        return 0
    d = _depth.get(t)
    if d is None:
        d = 1 + max([depth(x) for x in t if isinstance(x, tuple)] or [0])
        if len(_depth) > 400000:
            _depth.clear()
        _depth[t] = d
    return d


def contains_tag(t, tags):
    if isinstance(t, tuple) and t:
        if t[0] in tags:
            return True
        return any(contains_tag(x, tags) for x in t if isinstance(x, tuple))
    return False


def find_syms(t, tags, out):
    if isinstance(t, tuple) and t:
        if t[0] in tags:
            if t not in out:
                out.append(t)
            return
        for x in t:
            if isinstance(x, tuple):
                find_syms(x, tags, out)


VOLATILE = ('g', 'm', 'nx', 'lv', 'b')


def deref(v):
    if v[0] == 'p':
        return v[1]
    return ('D', v)


def addr(loc):
    if loc[0] == 'D':
        return loc[1]
    return ('p', loc)


def root(loc):
    while loc[0] in ('F', 'E'):
        loc = loc[1]
    return loc


def is_prefix(a, loc):
    """a is loc or a container/record that loc is part of"""
    while True:
        if loc == a:
            return True
        if loc[0] in ('F', 'E'):
            loc = loc[1]
        else:
            return False


def rebase(loc, a, b):
    if loc == a:
        return b
    if loc[0] == 'F':
        return ('F', rebase(loc[1], a, b), loc[2])
    if loc[0] == 'E':
        return ('E', rebase(loc[1], a, b), loc[2])
    return loc


def path(loc):
    """readable rendering"""
    return show(loc)


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    if d > 12:
        return '..'
    k = t[0]
    if k == 'c':
        return 'null' if t[1] is None else str(t[1])
    if k == 'F':
        return show(t[1], d + 1) + '.' + str(t[2])
    if k == 'E':
        return show(t[1], d + 1) + '[' + show(t[2], d + 1) + ']'
    if k == 'D':
        return '*' + show(t[1], d + 1)
    if k == 'p':
        return '&' + show(t[1], d + 1)
    if k == 'ld':
        return show(t[1], d + 1)
    if k == 'O':
        return str(t[1])
    if k == 'L':
        return 'local%s' % (t[2],)
    if k == 'T':
        return 'tmp'
    if k in ('g', 'm', 'k', 'pk'):
        return '<element>'
    if k == 'b':
        return '<first of ' + show(t[1], d + 1) + '>'
    if k == 'o':
        return '<visited ' + show(t[1], d + 1) + '>'
    if k == 'all':
        return '<all of ' + show(t[1], d + 1) + '>'
    if k == 'q':
        return '<added>'
    if k == 'nx':
        return '<next>'
    if k == 'fn':
        return '<closure>'
    if k == 'mk':
        return 'new ' + str(t[1])
    if k == 'it':
        return 'it(' + show(t[1], d + 1) + ',' + show(t[2], d + 1) + ')'
    return str(k) + '(' + ','.join(show(x, d + 1) for x in t[1:]) + ')'


class St:
    __slots__ = ('env', 'facts', 'cs', 'tr')

    def __init__(self, env=None, facts=None, cs=frozenset(), tr=()):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.cs = cs
        self.tr = tr

    def copy(self):
        return St(dict(self.env), dict(self.facts), self.cs, self.tr)

    def key(self):
        return (frozenset(self.env.items()), self.cs)

    def fkey(self):
        return frozenset(self.facts.items())

    # client may-items
    def add(self, *items):
        s = self.copy()
        s.cs = s.cs | frozenset(items)
        return s

    def drop(self, pred):
        s = self.copy()
        s.cs = frozenset(x for x in s.cs if not pred(x))
        return s

    def note(self, x):
        s = self.copy()
        s.tr = (s.tr + (x,))[-40:]
        return s


def merge_facts(a, b):
    """intersection; relation masks are joined"""
    out = {}
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            continue
        if k[0] == 'rel':
            m = v | w
            if m != 7:
                out[k] = m
        elif k[0] == 'ents':
            out[k] = tuple(sorted(set(v) | set(w), key=tid))
        elif v == w:
            out[k] = v
    # what was added to a container by only one of the two
    for k in list(a) + list(b):
        if k[0] == 'ents' and k not in out:
            out[k] = a.get(k) or b.get(k)
        elif k[0] == 'ent' and k not in out:
            va, vb = a.get(k), b.get(k)
            out[k] = va if vb is None else vb if va is None or va == vb else TOP
    # facts about elements added by only one of the two remain valid
    for x, y in ((a, b), (b, a)):
        sx = None
        for k, v in x.items():
            if k in out or k in y or k[0] in ('ents', 'ent'):
                continue
            qs = []
            find_syms(k, ('q',), qs)
            if qs:
                if sx is None:
                    sx = set()
                    for k2 in y:
                        l = []
                        find_syms(k2, ('q',), l)
                        sx.update(l)
                if not any(q in sx for q in qs):
                    out[k] = v
    return out


class StateSet:
    """set of states: states with the same memory and client items are joined"""

    def __init__(self):
        self.d = {}

    def add(self, st):
        """returns the state to (re)process, None when already covered"""
        k = st.key()
        o = self.d.get(k)
        if o is None:
            self.d[k] = st
            return st
        if o.facts == st.facts:
            return None
        f = merge_facts(o.facts, st.facts)
        if f == o.facts:
            return None
        n = St(dict(o.env), f, o.cs, o.tr)
        self.d[k] = n
        return n

    def states(self):
        return list(self.d.values())

    def wide(self, st, n=4):
        """as add, joining with a similar state when there are too many"""
        if st.key() in self.d or len(self.d) < n:
            return self.add(st)
        best, bk = -1, None
        for k, y in self.d.items():
            m = sum(1 for a, v in st.env.items() if y.env.get(a) == v) + (1000 if y.cs == st.cs else 0)
            if m > best:
                best, bk = m, k
        y = self.d[bk]
        j = join(y, st)
        if j.key() == bk:
            if j.facts == y.facts:
                return None
            self.d[bk] = j
            return j
        # the joined state covers the old one
        del self.d[bk]
        return self.add(j)


def join(a, b):
    env = {}
    for k, v in a.env.items():
        w = b.env.get(k)
        if w is None or w != v:
            if v[0] == 'ref' or (w is not None and w[0] == 'ref'):
                continue
            env[k] = TOP
        else:
            env[k] = v
    for k, v in b.env.items():
        if k not in a.env and v[0] != 'ref':
            env[k] = TOP
    return St(env, merge_facts(a.facts, b.facts), a.cs | b.cs, a.tr)


CAP = [16]  # current bound, lowered by the engine inside loops


def cap(states, n=None):
    """bounds the number of states by joining the ones in excess"""
    n = n or CAP[0]
    if len(states) <= n:
        return states
    out = list(states[:n])
    for x in states[n:]:
        # the most similar one
        best, bi = -1, 0
        for i, y in enumerate(out):
            if y.cs == x.cs:
                m = sum(1 for k, v in x.env.items() if y.env.get(k) == v)
                if m > best:
                    best, bi = m, i
        out[bi] = join(out[bi], x)
    return out


def dedupe(states):
    if len(states) <= 1:
        return states
    s = StateSet()
    for x in states:
        s.add(x)
    return cap(s.states())


def dedupe_pairs(pairs):
    """[(state,value)] joined per value"""
    if len(pairs) <= 1:
        return pairs
    by = {}
    order = []
    for st, v in pairs:
        if v not in by:
            by[v] = StateSet()
            order.append(v)
        by[v].add(st)
    return [(s, v) for v in order for s in cap(by[v].states())]
