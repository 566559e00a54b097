"""Structured symbolic form of the functions: every function is turned, with the
calls it makes inlined, in a tree of conditions, loops and effects whose operands
are terms over the parameters and the fields (gated values: locals are replaced by
what they hold).  How the code is split in helpers, what the locals are called, which
kind of loop is used... disappears.  Nothing is executed."""
import prog as P
import ctypes_ as T


# standard functions that take their arguments by forwarding reference and do not assign plain variables
FORWARDS = {'make_unique', 'make_shared', 'make_pair', 'make_tuple', 'emplace', 'emplace_back', 'emplace_front', 'push_back', 'push_front', 'insert', 'try_emplace',
            'forward', 'pair', 'tuple', 'min', 'max', 'to_string', 'distance', 'next', 'prev', 'size', 'begin', 'end', 'addressof', 'ref', 'cref', 'get'}


INCS = ('++', '--', 'post++', 'post--')


class N:
    __slots__ = ('k', 'a', 'at', 'x')

    def __init__(self, k, at=None, **a):
        self.k = k
        self.at = at
        self.a = a
        self.x = None

    def __getattr__(self, n):
        try:
            return object.__getattribute__(self, 'a')[n]
        except KeyError:
            raise AttributeError(n)


TRUE = ('bool', True)
FALSE = ('bool', False)
NULL = ('null',)
NULLOPT = ('nullopt',)
VOID = ('void',)


def lit(v):
    return ('lit', v)


# ------------------------------------------------------------------- terms
def sub(t, m):
    """substitution of terms"""
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    r = tuple(sub(x, m) if isinstance(x, tuple) else x for x in t)
    return r if r != t else t


def has(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(has(y, x) for y in t if isinstance(y, tuple))
    return False


def any_t(t, pred):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t):
            return True
        return any(any_t(y, pred) for y in t if isinstance(y, tuple))
    return False


def all_t(t, pred, out=None):
    if out is None:
        out = []
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t):
            out.append(t)
        for y in t:
            if isinstance(y, tuple):
                all_t(y, pred, out)
    return out


def mem(b, f):
    while b[0] in ('deref', 'addr'):
        b = b[1]
    if b[0] == 'cond':
        if b[2] in (NULL, NULLOPT):
            return mem(b[3], f)
        if b[3] in (NULL, NULLOPT):
            return mem(b[2], f)
        return cond(b[1], mem(b[2], f), mem(b[3], f))
    if b[0] == 'find':
        if f == 'first':
            return b[2]
        if f == 'second':
            return ('val', b[1], b[2])
    if b[0] == 'emp':
        if f == 'first':
            return ('find', b[1], b[2])
        if f == 'second':
            return ('inserted', b[1], b[2])
    if b[0] == 'ent':
        if f == 'first':
            return ('key', b[1], b[2])
        if f == 'second':
            return ('val', b[1], ('key', b[1], b[2]))
    if b[0] == 'pick':
        return ('pick', b[1], b[2], mem(b[3], f))
    if b[0] == 'pair':
        if f == 'first':
            return b[1]
        if f == 'second':
            return b[2]
    if b[0] == 'rec':
        for n, v in b[2]:
            if n == f:
                return v
    return ('mem', b, f)


def isin(C, k):
    if k[0] == 'key' and k[1] == C or k[0] == 'ix' and k[1] == C:
        return TRUE
    return ('in', C, k)


def isset(x):
    if x in (NULL, NULLOPT):
        return FALSE
    if x[0] in ('ctor', 'make', 'new', 'rec', 'addr', 'emplaced', 'lam', 'pair'):
        return TRUE
    if x[0] == 'getif':
        return isalt(x[1], x[2])
    if x[0] == 'cond':
        return boolc(('cond', x[1], isset(x[2]), isset(x[3])))
    return ('isset', x)


def isalt(v, t):
    if v[0] == 'vari':
        return TRUE if v[1] == t else FALSE
    if v[0] == 'cond':
        return boolc(('cond', v[1], isalt(v[2], t), isalt(v[3], t)))
    return ('isalt', v, t)


def alt(v, t):
    if v[0] == 'vari' and v[1] == t:
        return v[2]
    if v[0] == 'cond':
        if isalt(v[2], t) == FALSE:
            return alt(v[3], t)
        if isalt(v[3], t) == FALSE:
            return alt(v[2], t)
        return cond(v[1], alt(v[2], t), alt(v[3], t))
    return ('alt', v, t)


def cond(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    return ('cond', c, a, b)


def is_num(t):
    return t[0] == 'lit' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool)


def neg(t):
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    if t[0] == '!':
        return t[1]
    return ('!', t)


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}


def size(c):
    if c[0] == 'sizes':
        return c[1]
    return ('size', c)


def unsigned(t):
    return t[0] in ('size', 'i') or (t[0] == 'call' and t[1] in ('size',))


def rel(op, a, b):
    """canonical relation: '<','<=','==','!=' ; literal on the right of ==,!="""
    if op == '>':
        op, a, b = '<', b, a
    elif op == '>=':
        op, a, b = '<=', b, a
    if is_num(a) and is_num(b):
        x, y = a[1], b[1]
        return TRUE if {'<': x < y, '<=': x <= y, '==': x == y, '!=': x != y}[op] else FALSE
    # truth values used as numbers (count of a map or set)
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x[0] in ('in', 'anyi', 'any', 'isset') and is_num(y):
            v = [{'<': p < q, '<=': p <= q, '==': p == q, '!=': p != q}[op] for p, q in
                 (((y[1], k) if sw else (k, y[1])) for k in (0, 1))]
            return TRUE if v == [True, True] else FALSE if v == [False, False] else x if v[1] else neg(x)
    if op in ('==', '!='):
        if a == b:
            return TRUE if op == '==' else FALSE
        r = None
        for x, y in ((a, b), (b, a)):
            if y[0] == 'end' and x[0] in ('find', 'findif'):
                r = isin(x[1], x[2]) if x[0] == 'find' else ('any', x[1], x[2])
                return r if op == '!=' else neg(r)
            if y[0] == 'end' and x[0] == 'findi' and x[1] == y[1]:
                r = ('anyi', x[2], x[3])
                return r if op == '!=' else neg(r)
            if y in (NULL, NULLOPT):
                r = isset(x)
                return r if op == '!=' else neg(r)
            if y in (TRUE, FALSE):
                v = x if (y == TRUE) == (op == '==') else neg(x)
                return v
            if y[0] == 'begin' and x[0] == 'end' and x[1] == y[1]:
                r = ('rel', '==', size(x[1]), lit(0))
                return r if op == '==' else neg(r)
        if is_num(a) or (not is_num(b) and repr(b) < repr(a)):
            a, b = b, a
        for x, y in ((a, b),):
            if is_num(y) and x[0] == 'inN':
                pass
        return ('rel', op, a, b) if op == '==' else ('!', ('rel', '==', a, b))
    # comparisons with 0 / 1 of unsigned quantities
    if op == '<' and is_num(b) and b[1] == 1 and unsigned(a):
        return ('rel', '==', a, lit(0))
    if op == '<' and is_num(a) and a[1] == 0 and unsigned(b):
        return ('!', ('rel', '==', b, lit(0)))
    if op == '<=' and is_num(b) and b[1] == 0 and unsigned(a):
        return ('rel', '==', a, lit(0))
    if op == '<=' and is_num(a) and a[1] == 1 and unsigned(b):
        return ('!', ('rel', '==', b, lit(0)))
    if op == '<=':
        # a <= b  ==  !(b < a)
        return ('!', ('rel', '<', b, a))
    return ('rel', '<', a, b)


def boolc(t):
    """normal form of a conditional used as a truth value"""
    if t[0] == '||':
        if TRUE in t[1:]:
            return TRUE
        if t[1] == FALSE:
            return t[2]
        if t[2] == FALSE:
            return t[1]
    if t[0] == '&&':
        if FALSE in t[1:]:
            return FALSE
        if t[1] == TRUE:
            return t[2]
        if t[2] == TRUE:
            return t[1]
    if t[0] == 'cond':
        c, a, b = t[1], boolc(t[2]), boolc(t[3])
        if a == b:
            return a
        if a == TRUE and b == FALSE:
            return c
        if a == FALSE and b == TRUE:
            return neg(c)
        if a == TRUE:
            return ('||', c, b)
        if b == FALSE:
            return ('&&', c, a)
        if a == FALSE:
            return ('&&', neg(c), b)
        if b == TRUE:
            return ('||', neg(c), a)
        return ('cond', c, a, b)
    return t


def atoms(t, pol=True):
    """conjunction of atoms equivalent to (or implied by) t == pol"""
    t = boolc(t)
    if t[0] == '!':
        return atoms(t[1], not pol)
    if t[0] == '&&' and pol or t[0] == '||' and not pol:
        return atoms(t[1], pol) + atoms(t[2], pol)
    if t[0] == '||' and pol:
        a, b = atoms(t[1], True), atoms(t[2], True)
        return [('or', tuple(sorted([tuple(sorted(a, key=repr)), tuple(sorted(b, key=repr))], key=repr)))]
    if t[0] == '&&' and not pol:
        a, b = atoms(t[1], False), atoms(t[2], False)
        return [('or', tuple(sorted([tuple(sorted(a, key=repr)), tuple(sorted(b, key=repr))], key=repr)))]
    if t in (TRUE, FALSE):
        return [] if (t == TRUE) == pol else [FALSE]
    return [t if pol else ('!', t)]


# --------------------------------------------------------------- construction
PASS = {'std::forward', 'std::move', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof'}
ALG = {'find_if', 'any_of', 'all_of', 'none_of', 'for_each', 'find_if_not', 'count_if'}
WRITERS = {'transform', 'copy', 'copy_if', 'fill', 'fill_n', 'iota', 'sort', 'stable_sort', 'for_each', 'generate', 'reverse', 'unique', 'remove_if',
           'remove', 'replace', 'replace_if', 'rotate', 'partition', 'stable_partition', 'move', 'swap_ranges', 'shuffle', 'nth_element', 'iter_swap'}
SCALARS = {'unsigned long', 'long', 'int', 'unsigned int', 'float', 'double', 'bool', 'char', 'size_t', 'std::size_t', 'unsigned char', 'long long', 'unsigned long long'}
ALG2 = {'equal', 'count', 'accumulate', 'transform', 'copy', 'fill'}
HOF = {'forEachCombination', 'forEachNonNullCombination', 'forEachSample', 'for_each_combination'}


def short(q):
    d = 0
    s = ''
    i = 0
    q = q or ''
    while i < len(q):
        c = q[i]
        if q.startswith('operator', i) and (i == 0 or q[i - 1] == ':'):
            if d == 0:
                return s + q[i:]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            s += c
        i += 1
    return s


class Sym:
    def __init__(self, p, keep=(), inline_ctor=(), hof=HOF, maxdepth=12, keepq=()):
        self.p = p
        self.keep = set(keep)       # names of functions not entered
        self.keepq = set(keepq)
        self.inline_ctor = set(inline_ctor)
        self.hof = set(hof)
        self.maxdepth = maxdepth
        self.lams = {}
        self.n = 0
        self.inlined = set()
        self.loops = []
        self.refs = set()
        self.path = []
        self.rec = {}
        for r in p.records.values():
            self.rec.setdefault(r['q'], r)

    def uid(self):
        self.n += 1
        return self.n

    # ------------------------------------------------------------ entry point
    def build(self, f, this=('this',), args=None):
        env = {}
        for i, a in enumerate(f['params']):
            env[a['d']] = args[i] if args else ('p', i, a['n'])
            if a.get('ref'):
                self.refs.add(a['d'])
        fr = dict(fn=f, this=this, depth=0, stack=(f['c'],), file=f['file'])
        out = []
        for it in f.get('inits') or ():
            self.ctor_init(it, this, env, fr, out)
        self.stmt(f['body'], env, fr, out)
        t = N('seq', (P.rel(f['file']), f['l']), s=out)
        return t

    def ctor_init(self, it, this, env, fr, out):
        e = it.get('e') or it.get('init')
        if e is None:
            return
        fld = it.get('f')
        if fld:
            v = self.ev(e, env, fr, out)
            task = None
            if v[0] == 'ctor' and v[1] in ('std::thread', 'std::jthread') and v[2]:
                task = self.task(v[2][0], e, env, fr)
            out.append(N('ev', self.at(e, fr), ek='set', lv=mem(this, fld), op='=', v=v, init=True, task=task))
        elif e.get('k') == 'ctor':
            # base or delegating constructor
            args = [self.ev(a, env, fr, out) for a in e.get('a') or ()]
            g = self.p.funcs.get(e.get('c'))
            if g and g.get('body') and not g.get('implicit') and fr['depth'] < self.maxdepth and g['c'] not in fr['stack']:
                self.enter(g, this, args, e, fr, out)
            else:
                out.append(N('ev', self.at(e, fr), ek='base', q=e.get('q'), args=tuple(args), c=e.get('c')))

    def at(self, n, fr):
        return (P.rel(fr['file']), n.get('l'))

    # ------------------------------------------------------------- statements
    def stmts(self, ss, env, fr, out):
        for s in ss:
            if s:
                self.stmt(s, env, fr, out)

    def stmt(self, s, env, fr, out):
        if s is None:
            return
        k = s['k']
        at = self.at(s, fr)
        if k == 'block':
            g = []
            self.stmts(s['s'], env, fr, out)
        elif k == 'expr':
            self.ev(s['e'], env, fr, out)
        elif k == 'decl':
            for v in s['v']:
                self.decl(v, env, fr, out, s)
        elif k == 'ret':
            v = self.ev(s['e'], env, fr, out) if s.get('e') else VOID
            out.append(N('ret', at, v=v, snap={d: env[d] for d in fr['watch'] if d in env} if fr.get('watch') else None))
        elif k == 'if':
            if s.get('i'):
                self.stmt(s['i'], env, fr, out)
            if s.get('cv'):
                self.stmt(s['cv'], env, fr, out)
            if 'cxv' in s:
                self.stmt(s['a'] if s['cxv'] else s['b'], env, fr, out)
                return
            c = self.cnd(s['c'], env, fr, out)
            self.branch(c, s['a'], s['b'], env, fr, out, at)
        elif k in ('for', 'while', 'do', 'rfor'):
            self.loop(s, env, fr, out)
        elif k == 'switch':
            self.switch(s, env, fr, out)
        elif k == 'try':
            b = []
            e0 = dict(env)
            self.stmt(s['s'], env, fr, b)
            hs = []
            for h in s['h']:
                ho = []
                e2 = dict(e0)
                self.stmt(h['s'], e2, fr, ho)
                hs.append(N('seq', at, s=ho))
            out.append(N('try', at, b=N('seq', at, s=b), h=hs))
        elif k in ('break', 'continue'):
            out.append(N(k, at))
            if self.loops:
                base, brk, cnt = self.loops[-1]
                c = TRUE
                for x in self.path[base:]:
                    c = x if c == TRUE else ('&&', c, x)
                (brk if k == 'break' else cnt).append((c, dict(env)))
        elif k in ('null', 'unk'):
            pass
        elif 'e' in s:
            self.ev(s, env, fr, out)
        else:
            self.ev(s, env, fr, out)

    def branch(self, c, a, b, env, fr, out, at):
        if c == TRUE or c == FALSE:
            self.run(a if c == TRUE else b, env, fr, out)
            return
        oa, ob = [], []
        ea, eb = dict(env), dict(env)
        self.path.append(c)
        self.run(a, ea, fr, oa)
        self.path[-1] = neg(c)
        self.run(b, eb, fr, ob)
        self.path.pop()
        out.append(N('if', at, c=c, a=N('seq', at, s=oa), b=N('seq', at, s=ob)))
        ta, tb = ends(oa), ends(ob)
        if self.loops and (ta or tb) and len(self.path) >= self.loops[-1][0]:
            # what follows in the body of the loop runs under the other condition
            if ta and not tb:
                self.path.append(neg(c))
            elif tb and not ta:
                self.path.append(c)
        for d in env:
            va, vb = ea.get(d, env[d]), eb.get(d, env[d])
            if ta and not tb:
                env[d] = vb
            elif tb and not ta:
                env[d] = va
            elif va != vb:
                env[d] = cond(c, va, vb)

    def run(self, x, env, fr, out):
        if callable(x):
            x(env, out)
        else:
            self.stmt(x, env, fr, out)

    def switch(self, s, env, fr, out):
        if s.get('i'):
            self.stmt(s['i'], env, fr, out)
        v = self.ev(s['c'], env, fr, out)
        at = self.at(s, fr)
        # groups of labels with the statements that follow (until break)
        groups = []
        labels = []
        body = []
        fresh = False
        for it in s['s']:
            if it['k'] in ('case', 'default'):
                if body and not fresh:
                    groups.append((labels, body))
                    labels, body = [], []
                labels.append(it)
                fresh = True
            else:
                fresh = False
                body.append(it)
        groups.append((labels, body))

        def falls(b):
            return not b or not self.jumps(b[-1])
        full = []
        for i, (l, b) in enumerate(groups):
            b = list(b)
            j = i
            while falls(b) and j + 1 < len(groups):
                j += 1
                b += groups[j][1]
            full.append((l, self.strip_break(b)))

        def conds(ls):
            r = None
            for l in ls:
                if l['k'] == 'default':
                    return None
                x = rel('==', v, self.ev(l['e'], env, fr, []))
                r = x if r is None else ('||', r, x)
            return r
        deflt = [b for l, b in full if conds(l) is None]
        chain = [(conds(l), b) for l, b in full if conds(l) is not None]

        def go(i):
            def f(e, o):
                if i == len(chain):
                    for b in deflt[:1]:
                        self.stmts(b, e, fr, o)
                    return
                self.branch(chain[i][0], lambda e2, o2: self.stmts(chain[i][1], e2, fr, o2), go(i + 1), e, fr, o, at)
            return f
        go(0)(env, out)

    def jumps(self, s):
        if s is None:
            return False
        if s['k'] in ('break', 'ret', 'continue'):
            return True
        if s['k'] == 'expr' and s['e'] and s['e'].get('k') == 'throw':
            return True
        if s['k'] == 'block':
            return bool(s['s']) and self.jumps(s['s'][-1])
        if s['k'] == 'if':
            return bool(s.get('b')) and self.jumps(s['a']) and self.jumps(s['b'])
        return False

    def strip_break(self, b):
        out = []
        for s in b:
            if s['k'] == 'break':
                break
            if s['k'] == 'block' and s['s'] and s['s'][-1]['k'] == 'break':
                s = dict(s, s=s['s'][:-1])
            out.append(s)
        return out

    def decl(self, v, env, fr, out, s):
        t = v.get('t') or ''
        e = v.get('init')
        d = v['d']
        if e is None:
            x = ('var', d, v['n'])
            env[d] = x if T.kind(t) in T.OBJ or T.kind(t) in ('str', 'fn') else ('undef',)
            out.append(N('ev', self.at(s, fr), ek='decl', lv=x, v=None, t=t))
            return
        if v.get('bind'):
            x = self.ev(e, env, fr, out)
            self.binds(v, x, env, fr, out, s, t)
            return
        x = self.ev(e, env, fr, out)
        self.declv(v, x, env, fr, out, s, e)

    def binds(self, v, x, env, fr, out, s, t):
        names = v['bind']
        flds = None
        r = self.rec.get(T.base(t)) or self.rec.get(T.strip(t))
        if r:
            flds = [f['n'] for f in r['f']]
        elif len(names) == 2:
            flds = ['first', 'second']
        for i, b in enumerate(names):
            f = flds[i] if flds and i < len(flds) else str(i)
            env[b['d']] = mem(x, f)
            self.refs.add(b['d'])

    def declv(self, v, x, env, fr, out, s, e):
        t = v.get('t') or ''
        d = v['d']
        if v.get('ref') or T.is_ref(t):
            env[d] = strip_addr(x)
            self.refs.add(d)
            return
        k = T.kind(t)
        if k in ('seq', 'set', 'map', 'json', 'rec', 'opt', 'var', 'str', 'pair'):
            # an object of its own
            lam = x[0] == 'lam'
            if lam or self.immut(v, fr) or x[0] == 'ret' and False:
                env[d] = x
                out.append(N('ev', self.at(s, fr), ek='decl', lv=('var', d, v['n']), v=x, t=t, copy=True))
                return
            loc = ('var', d, v['n'])
            env[d] = loc
            out.append(N('ev', self.at(s, fr), ek='decl', lv=loc, v=x, t=t))
            return
        env[d] = x
        out.append(N('ev', self.at(s, fr), ek='decl', lv=('var', d, v['n']), v=x, t=t, scalar=True))

    def immut(self, v, fr):
        """a local object that is never changed"""
        t = v.get('t') or ''
        if t.startswith('const '):
            return True
        f = fr['fn']
        m = self._mut(f)
        return v['d'] not in m

    _mc = None

    def _mut(self, f):
        if self._mc is None:
            self._mc = {}
        m = self._mc.get(f['c'])
        if m is None:
            m = set()

            def root(n):
                while n:
                    k = n.get('k')
                    if k == 'ref':
                        return n.get('d')
                    if k == 'mem':
                        n = n.get('b')
                    elif k in ('cast',):
                        n = n.get('e')
                    elif k == 'un' and n.get('op') in ('&', '*'):
                        n = n.get('e')
                    elif k == 'call' and n.get('o') is None and (n.get('q') or '').startswith('std::get') and n.get('a'):
                        n = n['a'][0]
                    elif k == 'call' and n.get('op') in ('*', '->', '[]') or k == 'call' and n.get('o') is not None:
                        n = n.get('o')
                        if n is None:
                            return None
                    else:
                        return None
                return None

            its, through = {}, set()

            def begin(n):
                while n and n.get('k') in ('cast',) or n and n.get('k') == 'ctor' and len(n.get('a') or ()) == 1:
                    n = n['e'] if n.get('k') == 'cast' else n['a'][0]
                if n and n.get('k') == 'call' and short(n.get('q')).split('::')[-1] == 'begin':
                    return root(n.get('o') or (n.get('a') or [None])[0])
                return None

            def v(n):
                k = n.get('k')
                if k == 'asg':
                    m.add(root(n['a']))
                    a = n['a']
                    while a.get('k') in ('cast', 'mem'):
                        a = a.get('e') or a.get('b')
                    if a.get('k') in ('un', 'call') and a.get('op') in ('*', '->', '[]'):
                        through.add(root(a))
                elif k == 'un' and n['op'] in INCS:
                    m.add(root(n['e']))
                elif k == 'call':
                    if short(n.get('q')).split('::')[-1] in WRITERS and (n.get('q') or '').startswith('std::'):
                        for a in n.get('a') or ():
                            m.add(begin(a))
                    if n.get('o') is not None and not n.get('cst'):
                        nm = short(n.get('q')).split('::')[-1]
                        if not (n.get('op') in ('*', '->', '()') or nm in ('begin', 'end', 'find', 'get', 'value', 'has_value', 'load')):
                            m.add(root(n['o']))
                    for i, a in enumerate(n.get('a') or ()):
                        pk = n.get('pk') or []
                        if (n.get('q') or '').startswith('std::get'):
                            continue
                        if i < len(pk) and pk[i] in ('r', 'rr'):
                            m.add(root(a))
                        if n.get('op') in ('=', '+=', '-=', '++', '--') and n.get('o') is None and i == 0:
                            m.add(root(a))
                elif k == 'decl':
                    for x in n['v']:
                        if x.get('init') and begin(x['init']) is not None:
                            its[x['d']] = begin(x['init'])
                        if x.get('ref') and not (x.get('t') or '').startswith('const') and x.get('init'):
                            m.add(root(x['init']))
                elif k == 'rfor':
                    x = n['v']
                    if x.get('ref') and not (x.get('t') or '').startswith('const'):
                        m.add(root(n['r']))
            P.walk([f.get('body'), f.get('inits')], v)
            for d in through:
                if d in its:
                    m.add(its[d])
            self._mc[f['c']] = m
        return m

    # ------------------------------------------------------------------ loops
    def assigned(self, nodes):
        """scalars assigned below"""
        out = set()

        def v(n):
            k = n.get('k')
            x = None
            if k == 'asg':
                x = n['a']
            elif k == 'un' and n['op'] in INCS:
                x = n['e']
            elif k == 'call' and n.get('op') in ('=', '++', '--', '+=', '-='):
                x = n.get('o') or (n.get('a') or [None])[0]
            elif k == 'call' and short(n.get('q') or '').split('::')[-1] in FORWARDS and (n.get('q') or '').startswith('std::'):
                pass
            elif k == 'call':
                pk = n.get('pk') or []
                for i, a in enumerate(n.get('a') or ()):
                    if i < len(pk) and pk[i] in ('r', 'rr') and a.get('k') == 'ref':
                        out.add(a['d'])
            while x and x.get('k') == 'cast':
                x = x.get('e')
            if x and x.get('k') == 'ref':
                out.add(x['d'])
        P.walk(nodes, v)
        return out

    def loop(self, s, env, fr, out):
        k = s['k']
        at = self.at(s, fr)
        lid = self.uid()
        I = ('i', lid)
        if k == 'rfor':
            if s.get('i'):
                self.stmt(s['i'], env, fr, out)
            C = self.ev(s['r'], env, fr, out)
            ct = s['r'].get('t') or ''
            if C[0] == 'list' and 1 < len(C) <= 7 and not self.has_kind(s['s'], 'break') and not self.has_kind(s['s'], 'continue'):
                # elements written out: one body each
                for x in C[1:]:
                    o = []
                    if s['v'].get('bind'):
                        self.binds(s['v'], x, env, fr, o, s, s['v'].get('t') or '')
                    else:
                        self.declv(s['v'], x, env, fr, o, s, s['r'])
                    self.run(s['s'], env, fr, o)
                    out.append(N('seq', at, s=o))
                return

            def bind(e, o):
                self.bind_elem(s['v'], C, ct, I, e, fr, o, s)
            self.loop_body(lid, N('loop', at, lid=lid, lk='each', C=C, lo=lit(0), hi=size(C), step=1, i=I, body=None, c=None, post=False),
                           s['s'], bind, None, env, fr, out)
            return
        if k == 'for':
            if s.get('i'):
                self.stmt(s['i'], env, fr, out)
        cnode = s.get('c')
        step = s.get('n')
        body = s['s']
        if k == 'while' and s.get('cv'):
            pass
        if k == 'while' and cnode is not None and not s.get('cv'):
            w = self.worklist(s, cnode, body, env)
            if w:
                c, v, rest = w
                self.loop({'k': 'rfor', 'l': s.get('l'), 'r': c, 'v': v, 's': rest}, env, fr, out)
                out.append(N('ev', at, ek='mut', C=self.ev(c, env, fr, []), op='clear', key=None, v=None, t=c.get('t') or ''))
                return
        guard = None
        if k in ('for', 'while') and cnode is not None:
            cc = cnode
            while cc.get('k') == 'cast':
                cc = cc['e']
            if cc.get('k') == 'bin' and cc.get('op') == '&&' and self.only_inc(body, step):
                guard, cnode = cc['b'], cc['a']
        # counter / iterator recognition
        if guard is not None and not self.counter(s, cnode, step, body, env, fr):
            guard, cnode = None, s.get('c')
        if k in ('for', 'while') and cnode is not None:
            r = self.counter(s, cnode, step, body, env, fr)
            if r:
                d, lo, hi, st, kind, C, ctype, body2 = r
                hi_t = hi

                def bind(e, o):
                    if kind == 'it':
                        e[d] = ('itr', C, I, ctype)
                    else:
                        e[d] = I
                node = N('loop', at, lid=lid, lk='each' if kind == 'it' else 'count', C=C, lo=lo, hi=hi_t, step=st, i=I, body=None, c=None, post=False)
                if guard is not None:
                    body2 = {'k': 'block', 'l': s.get('l'), 's': [{'k': 'if', 'l': s.get('l'), 'c': {'k': 'un', 'op': '!', 'e': guard, 't': 'bool', 'l': s.get('l')},
                                                                 'a': {'k': 'break', 'l': s.get('l')}, 'b': None}]}
                brk = self.loop_body(lid, node, body2, bind, None, env, fr, out, skip={d})
                if not brk:
                    env[d] = ('end', C) if kind == 'it' else ('endof', lid)
                    return
                q = ('loop', lid, lo, hi_t, st)
                c = brk[0][0]
                for c2, _ in brk[1:]:
                    c = ('||', c, c2)
                if any_t(c, lambda x: x[0] == 'phi' and x[1] == lid):
                    env[d] = ('unk', 'brk', self.uid())
                elif kind == 'it':
                    env[d] = ('findi', C, q, c, 'pair<const' in (ctype or ''))
                else:
                    env[d] = cond(('anyi', q, c), ('pick', q, c, I), hi_t)
                return
        node = N('loop', at, lid=lid, lk='while' if k != 'do' else 'do', C=None, lo=None, hi=None, step=None, i=I, body=None, c=None, post=(k == 'do'))
        self.loop_body(lid, node, body, None, step, env, fr, out, cnode=cnode, cv=s.get('cv'))

    def counter(self, s, c, step, body, env, fr):
        """recognises loops moving one counter / iterator over a range"""
        asg_body = self.assigned([body])
        bl = body
        inc = None
        if step is not None:
            inc = step
        else:
            # while: the increment is the last statement of the body
            if body['k'] != 'block' or not body['s']:
                return None
            last = body['s'][-1]
            if last['k'] != 'expr' or last['e'] is None:
                return None
            if self.has_kind(body, 'continue'):
                return None
            inc = last['e']
            bl = dict(body, s=body['s'][:-1])
        d = None
        st = 1
        if inc['k'] == 'un' and inc['op'] in ('++', 'post++') and inc['e']['k'] == 'ref':
            d = inc['e']['d']
        elif inc['k'] == 'call' and inc.get('op') == '++':
            x = inc.get('o') or (inc.get('a') or [None])[0]
            if x and x['k'] == 'ref':
                d = x['d']
        elif inc['k'] == 'asg' and inc['op'] == '+=' and inc['a']['k'] == 'ref':
            d = inc['a']['d']
            st = self.ev(inc['b'], env, fr, [])
            if is_num(st):
                st = st[1]
        if d is None or d not in env:
            return None
        if d in self.assigned([bl]):
            return None
        lo = env[d]
        cc = c
        while cc.get('k') == 'cast':
            cc = cc['e']
        op = cc.get('op')
        if cc['k'] == 'bin' and op in ('<', '!=', '>', '<='):
            a, b = cc['a'], cc['b']
        elif cc['k'] == 'call' and op in ('!=', '<'):
            xs = ([cc['o']] if cc.get('o') else []) + list(cc.get('a') or ())
            if len(xs) != 2:
                return None
            a, b = xs
        else:
            return None

        def isd(x):
            while x.get('k') == 'cast':
                x = x['e']
            return x['k'] == 'ref' and x.get('d') == d
        off = 0

        def shifted(x):
            while x.get('k') == 'cast':
                x = x['e']
            if x['k'] == 'bin' and x.get('op') == '+':
                for y, z in ((x['a'], x['b']), (x['b'], x['a'])):
                    if isd(y):
                        n = self.ev(z, dict(env), fr, [])
                        if is_num(n) and isinstance(n[1], int) and n[1] > 0:
                            return n[1]
            return 0
        if isd(a) and op in ('<', '!=', '<='):
            hi = b
        elif isd(b) and op in ('>', '!='):
            hi = a
        elif op in ('<', '<=') and shifted(a):
            hi, off = b, shifted(a)
        elif op == '>' and shifted(b):
            hi, off = a, shifted(b)
        else:
            return None
        # the bound must not depend on what the body changes
        deps = set()
        P.walk(hi, lambda n: deps.add(n['d']) if n.get('k') == 'ref' else None)
        ch = self.assigned([bl])
        if deps & ch:
            return None
        h = self.ev(hi, dict(env), fr, [])
        if h[0] == 'end' and lo[0] in ('begin', 'itp'):
            C = h[1]
            return d, (lit(0) if lo[0] == 'begin' else lo[2]), size(C), st, 'it', C, 'pair<const' if len(lo) > 2 and lo[0] == 'begin' else hi.get('t') or '', bl
        if h[0] == 'end':
            return None
        if op == '<=':
            off -= 1
        if off < 0:
            h = ('+', h, lit(-off))
        elif off > 0:
            h = ('-', h, lit(off))
        return d, lo, h, st, 'n', None, '', bl

    def has_kind(self, body, kind):
        r = [False]

        def v(n):
            if n.get('k') == kind:
                r[0] = True
        P.walk(body, v)
        return r[0]

    def bind_elem(self, v, C, ct, I, e, fr, o, s):
        el = self.elem(C, ct, I)
        if v.get('bind'):
            self.binds(v, el, e, fr, o, s, v.get('t') or '')
            return
        t = v.get('t') or ''
        if v.get('ref') or T.is_ref(t) or t.startswith('const ') or T.kind(t) not in T.OBJ:
            e[v['d']] = el
            if v.get('ref') or T.is_ref(t):
                self.refs.add(v['d'])
        else:
            self.declv(v, el, e, fr, o, s, None)

    def elem(self, C, ct, I):
        if T.kind(ct) == 'map' or C[0] == 'mapvar':
            return ('ent', C, I)
        return ('ix', C, I)

    def loop_body(self, lid, node, body, bind, step, env, fr, out, cnode=None, cv=None, skip=()):
        ch = set()
        if isinstance(body, dict):
            ch = self.assigned([body, step, cnode])
        else:
            ch = getattr(body, 'assigned', set())
        ch = set(d for d in ch if d in env and d not in skip)
        # lambdas called in the body may assign captured scalars
        ch |= set(d for d in self.lam_assigned(body, env) if d in env)
        ch = set(d for d in ch if not (d in self.refs and self.isplace(env[d])))
        before = {d: env[d] for d in ch}
        e = dict(env)
        for d in ch:
            if before[d][0] not in ('var',):
                e[d] = ('phi', lid, d, before[d])
        o = []
        if cnode is not None and not node.a['post']:
            if cv:
                self.stmt(cv, e, fr, o)
            node.a['c'] = self.cnd(cnode, e, fr, o)
            node.a['pre'] = N('seq', node.at, s=list(o))
            o = []
        if bind:
            bind(e, o)
        base = len(self.path)
        brk, cnt = [], []
        self.loops.append((base, brk, cnt))
        self.run(body, e, fr, o)
        self.loops.pop()
        del self.path[base:]
        for c, en in cnt:
            for d in ch:
                if d in en and d in e and en[d] != e[d]:
                    e[d] = cond(c, en[d], e[d])
        if step is not None:
            self.ev(step, e, fr, o)
        if cnode is not None and node.a['post']:
            node.a['c'] = self.cnd(cnode, e, fr, o)
        node.a['body'] = N('seq', node.at, s=o)
        # counters advanced by one at every iteration follow the index of the loop
        ind = {}
        if node.a.get('lo') is not None and node.a.get('step') == 1:
            for d in ch:
                if d not in before or before[d][0] == 'var':
                    continue
                phi = ('phi', lid, d, before[d])
                if e.get(d) == ('+', phi, lit(1)) and before[d][0] == 'begin' and len(before[d]) == 2 and node.a['lo'] == lit(0):
                    # so do iterators
                    C = before[d][1]
                    ind[phi] = ('itp', C, node.a['i'])
                    ind[('deref', phi)] = ('ix', C, node.a['i'])
                    ind[('+', phi, lit(1))] = ('itp', C, ('+', node.a['i'], lit(1)))
                    ind[('deref', ('+', phi, lit(1)))] = ('ix', C, ('+', node.a['i'], lit(1)))
                    continue
                if e.get(d) == ('+', phi, lit(1)) and is_num(before[d]) and is_num(node.a['lo']):
                    dl = before[d][1] - node.a['lo'][1]
                    ind[phi] = node.a['i'] if dl == 0 else ('+', node.a['i'], lit(dl))
                    if dl == 0 and not brk:
                        e[d] = before[d]
                        ind[('after', d)] = node.a['hi']
        if ind:
            subst_tree(node, {k: v for k, v in ind.items() if k[0] != 'after'})
            for d in list(e):
                e[d] = sub(e[d], ind)
            brk = [(sub(c, ind), {d: sub(v, ind) for d, v in en.items()}) for c, en in brk]
        for d in list(env):
            if ('after', d) in ind:
                env[d] = ind[('after', d)]
                continue
            if d in ch and before[d][0] != 'var':
                env[d] = self.after_brk(lid, d, before[d], e.get(d), node, brk)
            elif e.get(d, env[d]) != env[d]:
                env[d] = self.after_loop(lid, d, env[d], e.get(d), node)
        out.append(node)
        return brk

    def only_inc(self, body, step):
        ss = [x for x in (body.get('s') or [] if body['k'] == 'block' else [body]) if x['k'] not in ('null', 'empty')]
        if step is not None:
            return not ss or len(ss) == 1 and ss[0]['k'] == 'expr' and ss[0].get('e') is None
        return len(ss) == 1 and ss[0]['k'] == 'expr'

    def worklist(self, s, c, body, env):
        """while (!C.empty()) { x = C.front(); C.pop_front(); ... } with C left alone by the rest"""
        if body['k'] != 'block' or len(body['s']) < 2:
            return None

        def strip(n):
            while n and n.get('k') in ('cast', 'paren'):
                n = n['e']
            return n

        def onC(n, names):
            n = strip(n)
            if n and n.get('k') == 'ctor' and len(n.get('a') or ()) == 1:
                n = strip(n['a'][0])
            if n and n.get('k') == 'call' and n.get('op') == '*':
                return onC(n.get('o') or (n.get('a') or [None])[0], ('begin',)) if 'front' in names else None
            if n and n.get('k') == 'un' and n.get('op') == '*':
                return onC(n['e'], ('begin',)) if 'front' in names else None
            if n and n.get('k') == 'call' and short(n.get('q')).split('::')[-1] in names and n.get('o'):
                o = strip(n['o'])
                if o.get('k') == 'ref' and o.get('d') in env and env[o['d']][0] == 'var':
                    return o, n
            return None
        c = strip(c)
        r = None
        if c.get('k') == 'un' and c.get('op') == '!':
            r = onC(c['e'], ('empty',))
        elif c.get('k') == 'bin' and c.get('op') in ('!=', '>'):
            r = onC(c['a'], ('size',))
        if not r:
            return None
        d = r[0]['d']
        a, b, rest = body['s'][0], body['s'][1], body['s'][2:]
        if a['k'] != 'decl' or len(a['v']) != 1 or not a['v'][0].get('init') or a['v'][0].get('bind'):
            return None
        v = a['v'][0]
        x = onC(v['init'], ('front', 'back'))
        if not x or x[0]['d'] != d or v.get('ref'):
            return None
        y = onC(b['e'], ('pop_front', 'pop_back', 'erase', 'pop')) if b['k'] == 'expr' and b.get('e') else None
        if not y or y[0]['d'] != d:
            return None
        nm = short(y[1].get('q')).split('::')[-1]
        if nm == 'erase':
            z = onC((y[1].get('a') or [None])[0], ('begin',))
            if not z or z[0]['d'] != d:
                return None
        used = [False]

        def see(n):
            if n.get('k') == 'ref' and n.get('d') == d:
                used[0] = True
        P.walk(rest, see)
        if used[0] or self.has_kind({'k': 'block', 's': rest}, 'break') or self.has_kind({'k': 'block', 's': rest}, 'ret'):
            return None
        return r[0], {k: z for k, z in v.items() if k != 'init'}, dict(body, s=rest)

    def lam_assigned(self, body, env):
        out = set()
        if not isinstance(body, dict):
            return out

        def v(n):
            if n.get('k') == 'ref' and n.get('d') in env:
                t = env[n['d']]
                if t[0] == 'lam':
                    out.update(self.assigned([self.lams[t[1]][0]['body']]))
        P.walk(body, v)
        return out

    def after_loop(self, lid, d, before, val, node):
        """value of a scalar when the loop ends"""
        phi = ('phi', lid, d, before)
        if val is None or val == phi:
            return before
        q = ('loop', lid, node.a.get('lo'), node.a.get('hi'), node.a.get('step'))
        # a flag raised when some element satisfies a condition
        if val[0] == 'cond' and (val[3] == phi or val[2] == phi):
            c, x = (val[1], val[2]) if val[3] == phi else (neg(val[1]), val[3])
            if not has(c, phi) and not has(x, phi) and node.a.get('lo') is not None:
                if not has(x, ('i', lid)):
                    return cond(('anyi', q, c), x, before)
                if self.breaks_after(node, c):
                    return cond(('anyi', q, c), ('pick', q, c, x), before)
        if val[0] in ('+', '*', '-', '||', '&&', 'max', 'min') and val[1] == phi and not has(val[2], phi):
            return ('fold', q, val[0], before, val[2])
        if val[0] in ('+', '*', '||', '&&', 'max', 'min') and val[2] == phi and not has(val[1], phi):
            return ('fold', q, val[0], before, val[1])
        return ('out', lid, d, before, val)

    def after_brk(self, lid, d, before, val, node, brk):
        phi = ('phi', lid, d, before)
        bs = [(c, en[d]) for c, en in brk if d in en and en[d] != phi]
        if not bs:
            return self.after_loop(lid, d, before, val, node)
        if val == phi and len(bs) == 1 and node.a.get('lo') is not None and not has(bs[0][0], phi) and not has(bs[0][1], phi):
            q = ('loop', lid, node.a.get('lo'), node.a.get('hi'), node.a.get('step'))
            c, x = bs[0]
            if has(x, ('i', lid)):
                x = ('pick', q, c, x)
            return cond(('anyi', q, c), x, before)
        return ('out', lid, d, before, val if val is not None else VOID, tuple(x for _, x in bs))

    def breaks_after(self, node, c):
        return False

    # ------------------------------------------------------------ expressions
    def cnd(self, e, env, fr, out):
        t = self.ev(e, env, fr, out)
        return self.truth(t, e.get('t') or '')

    def truth(self, t, ty=''):
        if t[0] in ('rel', '!', '&&', '||', 'in', 'any', 'anyi', 'isset', 'isalt', 'all'):
            return t
        if t in (TRUE, FALSE):
            return t
        if t[0] == 'lit':
            return TRUE if t[1] else FALSE
        if t in (NULL, NULLOPT):
            return FALSE
        if t[0] == 'cond':
            return boolc(('cond', t[1], self.truth(t[2], ty), self.truth(t[3], ty)))
        k = T.kind(ty)
        if k in ('ptr', 'opt'):
            return rel('!=', t, NULL)
        if k == 'num' and T.strip(ty) != 'bool':
            return rel('!=', t, lit(0))
        if t[0] == 'getif':
            return isalt(t[1], t[2])
        return t

    def ev(self, e, env, fr, out):
        if e is None:
            return VOID
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            return ('unk', e['k'], e.get('nid'))
        return m(e, env, fr, out)

    def e_expr(self, e, env, fr, out):
        return self.ev(e['e'], env, fr, out)

    def e_lit(self, e, env, fr, out):
        v = e.get('v')
        if e.get('str'):
            return ('str', v)
        if T.strip(e.get('t')) == 'bool':
            return TRUE if v else FALSE
        return ('lit', v)

    def e_null(self, e, env, fr, out):
        return NULL

    def e_zero(self, e, env, fr, out):
        k = T.kind(e.get('t'))
        if k == 'num':
            return FALSE if T.strip(e.get('t')) == 'bool' else lit(0)
        if k == 'ptr':
            return NULL
        return ('zero', e.get('t'))

    def e_enum(self, e, env, fr, out):
        return ('enum', T.strip(e.get('t')), e.get('v'), e.get('n'))

    def e_this(self, e, env, fr, out):
        return fr['this']

    def e_ref(self, e, env, fr, out):
        d = e.get('d')
        if d in env:
            return env[d]
        if e.get('q') == 'std::nullopt' or e.get('n') == 'nullopt':
            return NULLOPT
        if e.get('dk') == 'local':
            return ('var', d, e['n'])
        if 'v' in e and e['v'] is not None and not isinstance(e['v'], (dict, list)):
            return (TRUE if e['v'] else FALSE) if isinstance(e['v'], bool) else lit(e['v'])
        fs = [f for f in self.p.fns(e.get('q') or '') if f.get('body')] if e.get('dk') != 'global' and e.get('q') else []
        if len(fs) == 1 and not fs[0].get('cls'):
            # a function used as a value
            i = self.uid()
            self.lams[i] = (dict(fs[0], caps=[]), {}, {}, dict(fr, fn=fs[0], this=None, file=fs[0]['file']))
            return ('lam', i)
        return ('glob', e.get('q') or e.get('n'))

    def e_mem(self, e, env, fr, out):
        b = self.ev(e['b'], env, fr, out)
        return mem(self.value(b), e['f'])

    def value(self, b):
        """what a pointer/iterator/reference leads to"""
        while b[0] in ('deref', 'addr'):
            b = b[1]
        if b[0] == 'itr':
            return self.elem(b[1], b[3] if len(b) > 3 else '', b[2]) if False else self.itval(b)
        if b[0] == 'begin':
            return ('ent' if len(b) > 2 else 'ix', b[1], lit(0))
        if b[0] == 'findi':
            return self.picked(b)
        return b

    def picked(self, x):
        C, q, c = x[1], x[2], x[3]
        el = ('ent' if len(x) > 4 and x[4] else 'ix', C, ('i', q[1]))
        return ('pick', q, c, el)

    def itval(self, b):
        C, I, t = b[1], b[2], b[3]
        if 'pair<const' in (t or ''):
            return ('ent', C, I)
        return ('ix', C, I)

    def e_cast(self, e, env, fr, out):
        t = self.ev(e['e'], env, fr, out)
        if e.get('ck') == 'dynamic':
            return ('dyn', T.strip(e.get('tt') or e.get('t')), t)
        if T.strip(e.get('t')) == 'bool' and e.get('ckind') in ('PointerToBoolean', 'IntegralToBoolean', 'UserDefinedConversion'):
            return self.truth(t, e['e'].get('t') or '')
        if t[0] == 'lit' and T.strip(e.get('t')) == 'float' and isinstance(t[1], int) and not isinstance(t[1], bool):
            return t
        return t

    def e_init(self, e, env, fr, out):
        vs = [self.ev(a, env, fr, out) for a in e.get('a') or ()]
        r = self.rec.get(e.get('q') or '') or self.rec.get(T.strip(e.get('t') or ''))
        if r and len(r['f']) >= len(vs) and not r.get('b'):
            return ('rec', r['q'], tuple((f['n'], v) for f, v in zip(r['f'], vs)))
        if r and len(vs) == 1 and T.strip(e['a'][0].get('t') or '') == T.strip(e.get('t') or ''):
            return vs[0]
        if len(vs) == 1 and T.kind(e.get('t') or '') not in ('seq', 'set', 'map', 'rec', 'json', 'pair') and not T.targs(e.get('t') or '') and T.strip(e.get('t') or '') in SCALARS:
            return vs[0]
        return ('list',) + tuple(vs)

    def e_throw(self, e, env, fr, out):
        if e.get('e'):
            self.ev(e['e'], env, fr, [])
        out.append(N('throw', self.at(e, fr), re=e.get('e') is None))
        return VOID

    def e_sub(self, e, env, fr, out):
        return ('ix', self.ev(e['a'], env, fr, out), self.ev(e['b'], env, fr, out))

    def e_new(self, e, env, fr, out):
        return ('new', self.uid(), e.get('tt'))

    def e_del(self, e, env, fr, out):
        self.ev(e['e'], env, fr, out)
        return VOID

    def e_memfn(self, e, env, fr, out):
        return ('memfn', e.get('q'))

    def e_lambda(self, e, env, fr, out):
        i = self.uid()
        cenv = env  # by reference: shares the scalars of the enclosing frame
        caps = {}
        for c in e.get('caps') or ():
            if c.get('this'):
                continue
            if c.get('init') is not None:
                v = self.ev(c['init'], env, fr, out)
                caps[c['d']] = (v, bool(c.get('ref')))
        self.lams[i] = (e, env, caps, fr)
        return ('lam', i)

    def e_cond(self, e, env, fr, out):
        c = self.cnd(e['c'], env, fr, out)
        r = []

        def go(x):
            def f(en, o):
                r.append(self.ev(x, en, fr, o))
            return f
        oa, ob = [], []
        a = self.ev(e['a'], env, fr, oa)
        b = self.ev(e['b'], env, fr, ob)
        if oa or ob:
            out.append(N('if', self.at(e, fr), c=c, a=N('seq', None, s=oa), b=N('seq', None, s=ob)))
        return cond(c, a, b)

    def e_un(self, e, env, fr, out):
        op = e['op']
        if op == '!':
            return neg(self.cnd(e['e'], env, fr, out))
        x = self.ev(e['e'], env, fr, out)
        if op == '*':
            return self.deref(x)
        if op == '&':
            return ('addr', x) if x[0] != 'deref' else x[1]
        if op == '-':
            return lit(-x[1]) if is_num(x) else ('neg', x)
        if op in INCS:
            r = self.assign(e['e'], x, '+' if op[-1] == '+' else '-', lit(1), env, fr, out, e, arith=True)
            return x if op[:4] == 'post' else r
        return (op, x)

    def deref(self, x):
        if x[0] == 'addr':
            return x[1]
        if x[0] == 'itr':
            return self.itval(x)
        if x[0] == 'begin':
            return ('ent' if len(x) > 2 else 'ix', x[1], lit(0))
        if x[0] == 'findi':
            return self.picked(x)
        if x[0] == 'itp':
            return ('ix', x[1], x[2])
        if x[0] == 'find':
            return ('found', x[1], x[2])
        if x[0] == 'maxel':
            return ('max', x[1])
        if x[0] == 'cond':
            if x[2] in (NULL, NULLOPT):
                return self.deref(x[3])
            if x[3] in (NULL, NULLOPT):
                return self.deref(x[2])
            return cond(x[1], self.deref(x[2]), self.deref(x[3]))
        return ('deref', x)

    def e_bin(self, e, env, fr, out):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cnd(e['a'], env, fr, out)
            ob = []
            b = self.cnd(e['b'], env, fr, ob)
            if ob:
                s = N('seq', None, s=ob)
                z = N('seq', None, s=[])
                out.append(N('if', self.at(e, fr), c=a, a=s if op == '&&' else z, b=z if op == '&&' else s))
            if a in (TRUE, FALSE):
                return b if (a == TRUE) == (op == '&&') else a
            return boolc((op, a, b))
        a = self.ev(e['a'], env, fr, out)
        b = self.ev(e['b'], env, fr, out)
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return rel(op, a, b)
        if op == ',':
            return b
        if is_num(a) and is_num(b):
            try:
                return lit({'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[op](a[1], b[1]))
            except Exception:
                pass
        if op == '+' and is_num(a) and not is_num(b):
            a, b = b, a
        if op in ('+', '-') and is_num(b) and b[1] == 0:
            return a
        if op == '+' and a[0] == 'begin':
            return ('itp', a[1], b)
        if op == '-' and a[0] == 'end':
            return ('endm', a[1], b)
        return (op, a, b)

    def e_asg(self, e, env, fr, out):
        b = self.ev(e['b'], env, fr, out)
        a = self.ev(e['a'], env, fr, out)
        op = e['op']
        if op == '=':
            return self.assign(e['a'], a, '=', b, env, fr, out, e)
        return self.assign(e['a'], a, op[:-1], b, env, fr, out, e, arith=True)

    def assign(self, target, lv, op, val, env, fr, out, e, arith=False):
        """op '=' or an arithmetic operator"""
        x = target
        while x is not None and x.get('k') == 'cast':
            x = x['e']
        new = self.lastpushed(self.binop(op, lv, val), out) if arith else val
        d = x.get('d') if x is not None and x.get('k') == 'ref' else None
        if d is not None and d in env and not self.own(d, env) and x.get('dk') in ('local', 'param'):
            env[d] = new
            self.sync(d, new, env, fr)
            out.append(N('ev', self.at(e, fr), ek='setv', d=d, n=x['n'], op=op, v=new))
            return new
        lv2 = strip_addr(lv)
        al = self.alias(lv2, env)
        if al is not None:
            env[al] = self.binop(op, env[al], val) if arith else val
            return env[al]
        out.append(N('ev', self.at(e, fr), ek='set', lv=lv2, op=op, v=val, init=False))
        if op == '=' and lv2[0] == 'val':
            self.adopt(lv2, val, env, out)
        return lv2

    def adopt(self, lv, v, env, out):
        """an object held by a local enters a map: from there on it is the element, and what was set before is set now"""
        if v is None or v[0] != 'make' or not any(x == v for x in env.values()):
            return
        late = [n for n in out[:-1] if n.k == 'ev' and n.a['ek'] == 'set' and has(n.a['lv'], v)]
        for n in late:
            out.remove(n)
            a = dict(n.a, lv=sub(n.a['lv'], {v: lv}))
            if isinstance(a.get('v'), tuple):
                a['v'] = sub(a['v'], {v: lv})
            out.append(N('ev', n.at, **a))
        for d, x in list(env.items()):
            if isinstance(x, tuple) and has(x, v):
                env[d] = sub(x, {v: lv})

    def lastpushed(self, t, out):
        """the iterator before the end, just after a push, is that of the new element"""
        if t[0] != 'endm' or t[2] != lit(1):
            return t
        for n in reversed(out):
            if n.k != 'ev':
                return t
            if n.a['ek'] == 'mut' and n.a['C'] == t[1]:
                return n.a['new'] if n.a['op'] == 'push' and not n.a['front'] else t
        return t

    def own(self, d, env):
        """does the name stand for a place (an object, a reference to something)"""
        t = env[d]
        return t[0] == 'var' or (d in self.refs and (self.isplace(t) or t[0] == 'p'))

    def isplace(self, t):
        return t[0] in ('var', 'mem', 'ix', 'val', 'deref', 'found', 'new', 'alt', 'glob', 'this', 'pick', 'key', 'ent', 'back')

    def alias(self, lv, env):
        return None

    def sync(self, d, new, env, fr):
        pass

    # ------------------------------------------------------------------ calls
    def e_ctor(self, e, env, fr, out):
        q = e.get('q') or ''
        a = e.get('a') or []
        t = e.get('t') or ''
        if e.get('cm') in ('copy', 'move') and len(a) == 1:
            v = self.ev(a[0], env, fr, out)
            if e.get('cm') == 'copy' and T.kind(t) in ('rec', 'seq', 'set', 'map') and v[0] not in ('lam',):
                return v
            return v
        args = [self.ev(x, env, fr, out) for x in a if x.get('k') != 'defarg']
        b = T.base(t)
        if b in ('std::optional',):
            if not args:
                return NULLOPT
            return args[0]
        if b in ('std::function', 'std::shared_ptr', 'std::unique_ptr', 'std::reference_wrapper'):
            if not args:
                return NULL
            return args[0]
        if b == 'std::pair' and len(args) == 2:
            return ('pair', args[0], args[1])
        if b in ('std::basic_string',) and args:
            return args[0] if len(args) <= 2 else ('ctor', b) + tuple(args)
        if b == 'std::variant' and len(args) == 1:
            return ('vari', T.strip(a[0].get('t') or ''), args[0])
        if T.kind(t) in ('seq', 'set', 'map') and not args:
            return ('list',)
        if T.kind(t) in ('seq', 'set', 'map') and len(args) >= 1 and args[0][0] == 'list':
            return args[0]
        if T.kind(t) in ('seq', 'set') and len(args) >= 2 and args[0][0] == 'begin' and args[1][0] == 'end' and args[0][1] == args[1][1]:
            return ('listof', args[0][1])
        if T.kind(t) == 'it' and len(args) == 1:
            return args[0]
        f = self.p.funcs.get(e.get('c'))
        tt = ('ctor', T.base(t), tuple(args), self.at(e, fr)[1])
        if q.startswith('EFG::'):
            out.append(N('ev', self.at(e, fr), ek='ctor', cls=T.base(t), args=tuple(args), c=e.get('c'), r=tt, t=t))
        return tt

    def lam_of(self, t):
        while t[0] in ('addr', 'deref'):
            t = t[1]
        return t if t[0] == 'lam' else None

    def call_lam(self, t, args, e, env, fr, out):
        node, lenv, caps, lfr = self.lams[t[1]]
        if fr['depth'] > self.maxdepth:
            out.append(N('ev', self.at(e, fr), ek='opq', q='lambda', args=tuple(args)))
            return ('unk', 'lambda', self.uid())
        # by reference captures see the current values of the enclosing frame
        e2 = dict(env)
        for d in lenv:
            if d not in e2:
                e2[d] = lenv[d]
        for d, (v, ref) in caps.items():
            if ref and d in env:
                continue
            if ref and v[0] in ('ix', 'val', 'mem', 'deref', 'back', 'front'):
                self.refs.add(d)
            e2[d] = v
        for i, a in enumerate(node['params']):
            e2[a['d']] = strip_addr(args[i]) if i < len(args) else ('undef',)
            if a.get('ref'):
                self.refs.add(a['d'])
        body = []
        watch = self.assigned([node['body']])
        f2 = dict(fr, fn=lfr['fn'], this=lfr['this'], depth=fr['depth'] + 1, file=lfr['file'], watch=watch)
        before = {d: env[d] for d in env}
        self.stmt(node['body'], e2, f2, body)
        if early_ret(body):
            for d in watch:
                if d in e2 and not self.own(d, e2):
                    r = retval(snapped(body, d) + [N('ret', None, v=e2[d])])
                    e2[d] = ('unk', 'ret', self.uid()) if r is None or r in (VOID, THROW) else r
        # scalars of the enclosing frames changed by the lambda
        for d in list(env):
            if d in e2 and e2[d] != before[d] and not (d in caps and not caps[d][1]):
                env[d] = e2[d]
        for d, v in e2.items():
            if d not in env and d in lenv:
                env[d] = v
        # captured by reference under another name
        for d, (v, ref) in caps.items():
            if ref and d in e2 and e2[d] != v:
                for c in node.get('caps') or ():
                    if c.get('d') == d and c.get('init') and c['init'].get('k') == 'ref':
                        if c['init']['d'] in env:
                            env[c['init']['d']] = e2[d]
        return self.scope(body, e, f2, out, 'lambda')

    def task(self, v, e, env, fr):
        """what a function that is stored would do, called with ('tp', i)"""
        l = self.lam_of(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else None
        if l is None:
            return None
        node = self.lams[l[1]][0]
        o = []
        self.call_lam(l, [('tp', i) for i in range(len(node['params']))], e, dict(env), fr, o)
        return N('seq', self.at(e, fr), s=o)

    def scope(self, body, e, fr, out, name):
        r = retval(body)
        sc = N('scope', self.at(e, fr), b=N('seq', None, s=body), n=name, r=r)
        if r is None:
            r = ('ret', self.uid(), name)
            sc.a['r'] = r
        if any(not (n.k == 'ret') for n in body):
            out.append(sc)
        return r

    def enter(self, f, this, args, e, fr, out, outer=None):
        env = {}
        if outer is not None and any(any_t(a, lambda x: x[0] == 'lam') for a in args if isinstance(a, tuple)):
            # functions passed may change the variables they capture
            env.update(outer)
        else:
            outer = None
        for i, a in enumerate(f['params']):
            v = args[i] if i < len(args) else ('undef',)
            env[a['d']] = strip_addr(v) if a.get('ref') else v
            if a.get('ref'):
                self.refs.add(a['d'])
        self.inlined.add(f['c'])
        f2 = dict(fn=f, this=this, depth=fr['depth'] + 1, stack=fr['stack'] + (f['c'],), file=f['file'])
        body = []
        if f.get('ctor'):
            for it in f.get('inits') or ():
                self.ctor_init(it, this, env, f2, body)
        self.stmt(f['body'], env, f2, body)
        r = self.scope(body, e, dict(fr, file=fr['file']), out, f['q'])
        self._last_env = env
        self._last_early = early_ret(body)
        if outer is not None:
            for d in outer:
                if d in env and env[d] != outer[d]:
                    outer[d] = env[d]
        return r

    def refargs(self, f, e, env, cenv, argnodes):
        """scalars passed by reference and changed by the callee"""
        for i, a in enumerate(f['params']):
            if a.get('ref') and not a.get('cst') and i < len(argnodes):
                n = argnodes[i]
                while n.get('k') == 'cast':
                    n = n['e']
                if n.get('k') == 'ref' and n.get('d') in env and not self.own(n['d'], env):
                    if a['d'] in cenv:
                        env[n['d']] = cenv[a['d']] if not self._last_early or a['d'] not in self.assigned([f['body']]) else ('unk', 'ret', self.uid())

    def e_call(self, e, env, fr, out):
        q = e.get('q') or ''
        sq = short(q)
        nm = sq.split('::')[-1]
        op = e.get('op')
        on = e.get('o')
        an = [a for a in (e.get('a') or ())]
        if q.startswith(('std::', '__gnu_cxx::', 'nlohmann::')) or not q:
            return self.std(e, sq, nm, op, on, an, env, fr, out)
        f = self.p.funcs.get(e.get('c'))
        # Visitor
        if 'Visitor' in sq and nm == 'visit' and on is not None and len(an) == 1:
            r = self.visitor(e, on, an[0], env, fr, out)
            if r is not None:
                return r
        obj = self.ev(on, env, fr, out) if on is not None else None
        if obj is not None and obj[0] == 'lam' and op == '()':
            args = [self.ev(a, env, fr, out) for a in an]
            return self.call_lam(obj, args, e, env, fr, out)
        args = [self.ev(a, env, fr, out) for a in an]
        if 'Cache<' in q or sq.startswith('EFG::Cache'):
            return self.cache(e, nm, obj, args, fr, out)
        if nm in self.hof and any(self.lam_of(a) for a in args):
            return self.hofcall(e, nm, obj, args, env, fr, out)
        if f is None or not f.get('body') or nm in self.keep or sq in self.keepq or fr['depth'] >= self.maxdepth \
                or f['c'] in fr['stack'] or (e.get('virt') and not e.get('nonvirt')) or f['q'].startswith('EFG::Error'):
            return self.opaque(e, sq, nm, obj, args, fr, out, f)
        this = self.value(obj) if obj is not None else fr['this']
        r = self.enter(f, this, args, e, fr, out, env)
        self.refargs(f, e, env, self._last_env, an)
        return r

    def opaque(self, e, sq, nm, obj, args, fr, out, f=None):
        o = self.value(obj) if obj is not None else None
        r = ('call', nm, o if o is not None else VOID, tuple(args))
        cst = bool(e.get('cst')) or (f is not None and obj is None and not any(
            a.get('ref') and not a.get('cst') or '*' in (a.get('t') or '') for a in f['params']))
        if not cst:
            r = ('call', nm, o if o is not None else VOID, tuple(args), self.uid()) if T.strip(e.get('t')) != 'void' else VOID
        out.append(N('ev', self.at(e, fr), ek='call', q=sq, n=nm, o=o, args=tuple(args), c=e.get('c'), cst=cst, r=r,
                     t=e.get('t'), virt=bool(e.get('virt'))))
        return r

    def cache(self, e, nm, obj, args, fr, out):
        o = self.value(obj)
        if nm == 'empty':
            return ('!', isset(o))
        if nm == 'get':
            out.append(N('ev', self.at(e, fr), ek='read', lv=o, cache=True))
            return o
        if nm == 'reset':
            v = args[0] if args else NULL
            out.append(N('ev', self.at(e, fr), ek='set', lv=o, op='=', v=v, init=False, cache=True))
            return o
        return ('call', nm, o, tuple(args))

    def visitor(self, e, on, vn, env, fr, out):
        x = on
        while x.get('k') == 'cast':
            x = x['e']
        obj = self.ev(on, env, fr, out)
        if obj[0] == 'ctor':
            ts = T.targs(x.get('t') or '')
            lams = obj[2]
            out[:] = [n for n in out if not (n.k == 'ev' and n.a.get('ek') == 'ctor' and n.a.get('r') is obj)]
        else:
            return None
        v = self.ev(vn, env, fr, out)
        lams = [self.lam_of(l) for l in lams]
        if any(l is None for l in lams) or len(ts) != len(lams):
            return None
        self.alts(v, ts, lams, e, env, fr, out)
        return VOID

    def alts(self, v, ts, fns, e, env, fr, out):
        at = self.at(e, fr)

        def go(i):
            def f(en, o):
                def body(en2, o2):
                    self.call_lam(fns[i], [alt(v, T.strip(ts[i]))], e, en2, fr, o2)
                if i == len(fns) - 1:
                    body(en, o)
                else:
                    self.branch(isalt(v, T.strip(ts[i])), body, go(i + 1), en, fr, o, at)
            return f
        go(0)(env, out)

    def hofcall(self, e, nm, obj, args, env, fr, out):
        lid = self.uid()
        l = [self.lam_of(a) for a in args if self.lam_of(a)][0]
        node = self.lams[l[1]][0]
        o = self.value(obj) if obj is not None else VOID
        others = tuple(a for a in args if self.lam_of(a) is None)
        src = ('hof', nm, o, others, e.get('ta') and tuple(str(x) for x in e['ta']) or ())
        n = N('loop', self.at(e, fr), lid=lid, lk='hof', C=src, lo=lit(0), hi=size(src), step=1, i=('i', lid), body=None, c=None, post=False,
              n=nm, q=e.get('q'), obj=o)

        def body(en, ob):
            self.call_lam(l, [('hp', i, ('i', lid)) for i in range(len(node['params']))], e, en, fr, ob)
        body.assigned = self.assigned([node['body']])
        self.loop_body(lid, n, body, None, None, env, fr, out)
        return VOID

    # --------------------------------------------------------------- std calls
    def std(self, e, sq, nm, op, on, an, env, fr, out):
        if sq in PASS and len(an) == 1:
            x = self.ev(an[0], env, fr, out)
            return ('addr', x) if sq == 'std::addressof' else x
        if sq in ('std::visit',):
            return self.stdvisit(e, an, env, fr, out)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            xs = ([on] if on else []) + an
            if len(xs) == 2:
                a, b = [self.ev(x, env, fr, out) for x in xs]
                return rel(op, a, b)
        if op == '()' and on is not None:
            o = self.ev(on, env, fr, out)
            args = [self.ev(a, env, fr, out) for a in an]
            l = self.lam_of(o)
            if l:
                return self.call_lam(l, args, e, env, fr, out)
            return self.opaque(e, sq, nm, o, args, fr, out)
        if on is not None:
            o = self.ev(on, env, fr, out)
            if op == '*':
                return self.deref(o)
            if op == '->':
                return o
            if op in ('++', '--'):
                r = self.assign(on, o, '+' if op == '++' else '-', lit(1), env, fr, out, e, arith=True)
                return o if an else r
            args = [self.ev(a, env, fr, out) for a in an]
            return self.method(e, sq, nm, op, on, self.value(o) if o[0] not in ('itr', 'begin', 'end', 'find') else o, args, an, env, fr, out)
        args = [self.ev(a, env, fr, out) for a in an]
        if op == '->' and len(args) == 1:
            return args[0]
        if op == '*' and len(args) == 1:
            return self.deref(args[0])
        if op in ('++', '--') and len(args) in (1, 2):
            r = self.assign(an[0], args[0], '+' if op == '++' else '-', lit(1), env, fr, out, e, arith=True)
            return r if len(args) == 1 else args[0]
        if op in ('+', '-') and len(args) == 2:
            return self.binop(op, args[0], args[1])
        if op in ('=',) and len(args) == 2:
            return self.assign(an[0], args[0], '=', args[1], env, fr, out, e)
        if nm in ALG and len(args) >= 3 and args[0][0] in ('begin', 'itp') and args[1][0] in ('end',):
            r = self.alg(e, nm, args, an, env, fr, out)
            if r is not None:
                return r
        if nm == 'find' and len(args) == 3 and args[0][0] == 'begin' and args[1][0] == 'end':
            return ('find', args[0][1], args[2])
        if nm in ALG2 and len(args) >= 3 and args[0][0] in ('begin', 'itp') and args[1] == ('end', args[0][1]) and len(args[0]) == (2 if args[0][0] == 'begin' else 3):
            r = self.alg2(e, nm, args, env, fr, out)
            if r is not None:
                return r
        if nm in ('prev', 'next') and len(args) in (1, 2):
            return self.lastpushed(self.binop('-' if nm == 'prev' else '+', args[0], args[1] if len(args) > 1 and args[1][0] != 'undef' else lit(1)), out)
        if nm == 'distance' and len(args) == 2:
            return ('-', args[1], args[0]) if args[0][0] != 'begin' else ('index', args[1])
        if nm in ('max', 'min') and len(args) >= 2:
            a, b = args[:2]
            if repr(b) < repr(a) and not (a[0] == 'phi'):
                a, b = b, a
            if b[0] == 'phi':
                a, b = b, a
            return (nm, a, b)
        if nm in ('max_element', 'min_element') and len(args) >= 2 and args[0][0] == 'begin':
            return ('maxel' if nm == 'max_element' else 'minel', args[0][1])
        if nm == 'make_pair' and len(args) == 2:
            return ('pair', args[0], args[1])
        if nm in ('make_unique', 'make_shared'):
            cls = T.targs(T.strip(e.get('t') or ''))
            c = cls[0] if cls else ''
            r = ('make', T.strip(c), tuple(args), e.get('l'))
            out.append(N('ev', self.at(e, fr), ek='ctor', cls=T.strip(c), args=tuple(args), c=None, r=r, t=c, make=nm))
            return r
        if nm in ('make_optional',) and len(args) == 1:
            return args[0]
        if nm == 'swap' and len(args) == 2:
            k = len(out)
            for n, v in ((an[0], args[1]), (an[1], args[0])):
                self.assign(n, args[0] if v is args[1] else args[1], '=', v, env, fr, out, e)
            for x in out[k:]:
                if x.k == 'ev' and x.a['ek'] == 'set':
                    x.a['swap'] = True
            return VOID
        if nm == 'get_if' and len(args) == 1:
            ts = e.get('ta') or []
            v = args[0][1] if args[0][0] == 'addr' else args[0]
            t = self.alt_type(e.get('t'))
            return ('getif', v, t)
        if nm == 'holds_alternative' and len(args) == 1:
            ts = [x for x in (e.get('ta') or []) if isinstance(x, str)]
            return isalt(args[0], T.strip(ts[0]) if ts else '?')
        if nm == 'get' and len(args) == 1:
            return alt(args[0], T.strip(e.get('t') or ''))
        if nm in ('begin', 'cbegin') and len(args) == 1:
            return ('begin', args[0], 'm') if T.kind((e.get('a') or [{}])[0].get('t') or '') == 'map' else ('begin', args[0])
        if nm in ('end', 'cend') and len(args) == 1:
            return ('end', args[0])
        if nm == 'size' and len(args) == 1:
            return size(args[0])
        if nm in ('static_pointer_cast',) and len(args) == 1:
            return args[0]
        if nm in ('dynamic_pointer_cast',) and len(args) == 1:
            return ('dyn', T.strip(T.targs(e.get('t'))[0]) if T.targs(e.get('t')) else '?', args[0])
        r = ('call', nm, VOID, tuple(args))
        pure = not any(x in ('r', 'rr') for x in (e.get('pk') or [])) and nm not in ('rand', 'time')
        if not pure:
            for i, x in enumerate(e.get('pk') or []):
                if x == 'r' and i < len(an):
                    y = an[i]
                    while y.get('k') == 'cast':
                        y = y['e']
                    if y.get('k') == 'ref' and y.get('d') in env and not self.own(y['d'], env):
                        env[y['d']] = ('unk', nm, self.uid())
        if nm in ('rand', 'time'):
            r = r + (self.uid(),)
        out.append(N('ev', self.at(e, fr), ek='call', q=sq, n=nm, o=None, args=tuple(args), c=None, cst=pure, r=r, t=e.get('t'), virt=False, std=True))
        # algorithms with a function: it may be called
        for a in args:
            l = self.lam_of(a)
            if l:
                self.maybe_called(l, e, env, fr, out)
        return r

    def alt_type(self, t):
        t = T.strip(t or '')
        if t.endswith('*'):
            t = t[:-1].strip()
        return T.strip(t)

    def maybe_called(self, l, e, env, fr, out):
        node = self.lams[l[1]][0]
        lid = self.uid()
        n = N('loop', self.at(e, fr), lid=lid, lk='maybe', C=('unknown', lid), lo=None, hi=None, step=None, i=('i', lid), body=None, c=None, post=False)

        def body(en, ob):
            self.call_lam(l, [('hp', i, ('i', lid)) for i in range(len(node['params']))], e, en, fr, ob)
        body.assigned = self.assigned([node['body']])
        self.loop_body(lid, n, body, None, None, env, fr, out)

    def stdvisit(self, e, an, env, fr, out):
        fn = self.ev(an[0], env, fr, out)
        v = self.ev(an[1], env, fr, out) if len(an) > 1 else VOID
        vt = T.strip(an[1].get('t') or '') if len(an) > 1 else ''
        ts = [T.strip(t) for t in T.targs(vt)]
        cls = T.strip(an[0].get('t') or '')
        ms = [f for f in self.p.funcs.values() if f.get('n') == 'operator()' and (f.get('clst') == cls or f.get('cls') == cls) and f.get('body')]
        at = self.at(e, fr)
        if ts and ms:
            def pickm(t):
                for m in ms:
                    if m['params'] and T.strip(m['params'][0]['t']) == t:
                        return m
                return None

            def go(i):
                def f(en, o):
                    def body(en2, o2):
                        m = pickm(ts[i])
                        if m is not None and fr['depth'] < self.maxdepth and m['c'] not in fr['stack']:
                            self.enter(m, self.value(fn), [alt(v, ts[i])], e, fr, o2)
                    if i == len(ts) - 1:
                        body(en, o)
                    else:
                        self.branch(isalt(v, ts[i]), body, go(i + 1), en, fr, o, at)
                return f
            go(0)(env, out)
            return VOID
        l = self.lam_of(fn)
        if l:
            self.maybe_called(l, e, env, fr, out)
        return ('unk', 'visit', self.uid())

    def alg(self, e, nm, args, an, env, fr, out):
        C = args[0][1]
        lo = lit(0) if args[0][0] == 'begin' else args[0][2]
        l = self.lam_of(args[2])
        if l is None:
            return None
        lid = self.uid()
        ct = ''
        x = an[0]
        it = x.get('t') or ''
        el = ('ent', C, ('i', lid)) if 'pair<const' in it and 'unordered_map' not in it.split('pair<const')[0] and T.kind(it) == 'it' and it.find('pair<const') < 60 else ('ix', C, ('i', lid))
        if nm == 'for_each':
            n = N('loop', self.at(e, fr), lid=lid, lk='each', C=C, lo=lo, hi=size(C), step=1, i=('i', lid), body=None, c=None, post=False)

            def body(en, ob):
                self.call_lam(l, [el], e, en, fr, ob)
            body.assigned = self.assigned([self.lams[l[1]][0]['body']])
            self.loop_body(lid, n, body, None, None, env, fr, out)
            return VOID
        o = []
        c = self.truth(self.call_lam(l, [el], e, dict(env), fr, o), 'bool')
        if any(effects(x) for x in o):
            out.append(N('loop', self.at(e, fr), lid=lid, lk='each', C=C, lo=lo, hi=size(C), step=1, i=('i', lid), c=None, post=False,
                         body=N('seq', None, s=o)))
        q = ('loop', lid, lo, size(C), 1)
        if nm == 'any_of':
            return ('anyi', q, c)
        if nm == 'none_of':
            return neg(('anyi', q, c))
        if nm == 'all_of':
            return neg(('anyi', q, neg(c)))
        if nm == 'find_if':
            return ('findi', C, q, c, el[0] == 'ent')
        if nm == 'find_if_not':
            return ('findi', C, q, neg(c), el[0] == 'ent')
        return ('counti', C, q, c)

    def alg2(self, e, nm, args, env, fr, out):
        C = args[0][1]
        lo = lit(0) if args[0][0] == 'begin' else args[0][2]
        lid = self.uid()
        I = ('i', lid)
        el = ('ix', C, I)
        rest = args[2:]
        at = self.at(e, fr)

        def apply(f, xs, en, ob):
            l = self.lam_of(f)
            if l:
                return self.call_lam(l, xs, e, en, fr, ob)
            for w, op in (('std::plus', '+'), ('std::multiplies', '*'), ('std::minus', '-'), ('std::divides', '/')):
                if any_t(f, lambda x: isinstance(x[-1], str) and x[-1].startswith(w) or len(x) > 1 and isinstance(x[1], str) and x[1].startswith(w)):
                    return self.binop(op, xs[0], xs[1])
            return None

        def loop(fn, ch=()):
            n = N('loop', at, lid=lid, lk='each', C=C, lo=lo, hi=size(C), step=1, i=I, body=None, c=None, post=False)

            def body(en, ob):
                fn(en, ob)
            body.assigned = set(ch)
            for a in rest:
                l = self.lam_of(a)
                if l:
                    body.assigned |= self.assigned([self.lams[l[1]][0]['body']])
            self.loop_body(lid, n, body, None, None, env, fr, out)

        def put(dst, v, ob):
            if dst[0] == 'begin':
                ob.append(N('ev', at, ek='set', lv=('ix', dst[1], I), op='=', v=v, init=False))
            else:
                ob.append(N('ev', at, ek='mut', C=dst[3][0], op='push', key=None, v=v, new=('new', self.uid(), dst[3][0]), front=False, t='', task=self.task(v, e, env, fr)))

        def isdst(d):
            return d[0] == 'begin' and len(d) == 2 and lo == lit(0) or d[0] == 'call' and d[1] == 'back_inserter'
        if nm == 'equal':
            if rest[0][0] != 'begin' or lo != lit(0):
                return None
            D = rest[0][1]
            four = len(rest) > 1 and rest[1] == ('end', D)
            f = rest[2 if four else 1:]
            o = []
            c = apply(f[0], [el, ('ix', D, I)], dict(env), o) if f else rel('==', el, ('ix', D, I))
            if c is None or any(effects(x) for x in o):
                return None
            r = neg(('anyi', ('loop', lid, lo, size(C), 1), neg(self.truth(c, 'bool'))))
            return ('&&', rel('==', size(C), size(D)), r) if four else r
        if nm == 'count':
            return ('counti', C, ('loop', lid, lo, size(C), 1), rel('==', el, rest[0]))
        if nm == 'accumulate':
            d = ('acc', lid)
            if len(rest) > 1 and not self.lam_of(rest[1]) and apply(rest[1], [lit(0), lit(0)], {}, []) is None:
                return None

            def fn(en, ob):
                en[d] = apply(rest[1], [en[d], el], en, ob) if len(rest) > 1 else self.binop('+', en[d], el)
                ob.append(N('ev', at, ek='setv', d=d, n='acc', op='=', v=en[d]))
            env[d] = rest[0]
            loop(fn, [d])
            return env.pop(d)
        if nm == 'transform':
            if len(rest) != 2 or not isdst(rest[0]) or not self.lam_of(rest[1]):
                return None
            loop(lambda en, ob: put(rest[0], apply(rest[1], [el], en, ob), ob))
            return ('unk', 'it', self.uid())
        if nm == 'copy':
            if not isdst(rest[0]):
                return None
            loop(lambda en, ob: put(rest[0], el, ob))
            return ('unk', 'it', self.uid())
        if nm == 'fill':
            loop(lambda en, ob: ob.append(N('ev', at, ek='set', lv=el, op='=', v=rest[0], init=False)))
            return VOID
        return None

    def method(self, e, sq, nm, op, on, o, args, an, env, fr, out):
        at = self.at(e, fr)
        ot = on.get('t') or ''
        kd = T.kind(ot)
        cont = kd in ('seq', 'set', 'map') or kd == 'str' or kd == 'json'
        if nm in ('begin', 'cbegin'):
            return ('begin', o, 'm') if kd == 'map' else ('begin', o)
        if nm in ('end', 'cend'):
            return ('end', o)
        if nm in ('size', 'length'):
            return size(o)
        if nm == 'empty':
            return ('rel', '==', size(o), lit(0))
        if nm == 'find' and cont and kd != 'str':
            return ('find', o, args[0])
        if nm in ('count', 'contains') and cont and kd != 'str' and len(args) == 1:
            return isin(o, args[0])
        if nm in ('front',):
            return ('ix', o, lit(0))
        if nm == 'back':
            return ('back', o)
        if nm in ('get',) and kd == 'ptr':
            return ('addr', o) if o[0] == 'deref' else o
        if nm == 'get' and kd not in ('json',):
            return o
        if nm in ('value',) and kd == 'opt':
            out.append(N('ev', at, ek='need', v=isset(o)))
            return o
        if nm == 'has_value':
            return isset(o)
        if nm == 'operator bool':
            return isset(o) if kd in ('ptr', 'opt') else ('call', 'operator bool', o, ())
        if nm == 'value_or' and kd == 'opt':
            return cond(isset(o), o, args[0])
        if nm == 'load' and kd == 'atomic':
            out.append(N('ev', at, ek='aload', lv=o, args=tuple(args)))
            return ('ald', o, self.uid())
        if nm in ('store', 'exchange') and kd == 'atomic':
            out.append(N('ev', at, ek='astore', lv=o, v=args[0], args=tuple(args)))
            return VOID
        if op == '[]' or nm == 'at':
            if kd == 'map':
                out.append(N('ev', at, ek='mut', C=o, op='[]' if nm != 'at' else 'at', key=args[0], v=None)) if nm != 'at' else None
                return ('val', o, args[0])
            if kd == 'json':
                return self.opaque(e, sq, nm, o, args, fr, out)
            return ('ix', o, args[0])
        if op == '=' and kd == 'atomic':
            out.append(N('ev', at, ek='astore', lv=o, v=args[0], args=tuple(args)))
            return VOID
        if op == '=':
            return self.assign(on, o, '=', args[0], env, fr, out, e)
        if op in ('+=', '-=') and kd == 'it':
            return self.assign(on, o, op[0], args[0], env, fr, out, e, arith=True)
        if op in ('+', '-') and len(args) == 1:
            return self.lastpushed(self.binop(op, o, args[0]), out)
        if nm == 'reset' and kd in ('ptr', 'opt'):
            v = (NULLOPT if kd == 'opt' else NULL) if not args else args[0]
            return self.assign(on, o, '=', v, env, fr, out, e)
        if nm == 'emplace' and kd in ('opt', 'var'):
            if kd == 'opt' and len(an) == 1 and T.targs(T.strip(ot)) and T.strip(an[0].get('t') or '') == T.strip(T.targs(T.strip(ot))[0]):
                return self.assign(on, o, '=', args[0], env, fr, out, e)
            v = ('emplaced', tuple(args), self.uid())
            out.append(N('ev', at, ek='set', lv=o, op='=', v=v, init=False, emplace=True, args=tuple(args), t=ot))
            return o
        if cont and nm in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            i = self.uid()
            new = ('new', i, o)
            out.append(N('ev', at, ek='mut', C=o, op='push', key=None, v=args[0] if len(args) == 1 else (('args',) + tuple(args) if args else None), new=new,
                         front='front' in nm, t=ot, task=self.task(args[0], e, env, fr) if len(args) == 1 else None))
            return new
        if cont and nm in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
            if nm == 'insert' and len(args) == 2 and args[0][0] == 'begin' and kd != 'seq':
                out.append(N('ev', at, ek='mut', C=o, op='insert_all', key=args[0][1], v=None, t=ot))
                return VOID
            if nm in ('insert', 'emplace') and kd == 'seq' and len(args) == 2:
                i = self.uid()
                if args[0] == ('end', o):
                    out.append(N('ev', at, ek='mut', C=o, op='push', key=None, v=args[1], new=('new', i, o), front=False, t=ot, task=self.task(args[1], e, env, fr)))
                else:
                    out.append(N('ev', at, ek='mut', C=o, op='push', key=None, v=args[1], new=('new', i, o), front=True, t=ot, task=self.task(args[1], e, env, fr)))
                return ('new', i, o)
            if nm == 'insert' and kd == 'seq' and len(args) == 3:
                out.append(N('ev', at, ek='mut', C=o, op='insert_all', key=args[1][1] if args[1][0] == 'begin' else args[1], v=None, t=ot))
                return VOID
            key = args[0] if args else None
            val = args[1] if len(args) > 1 else None
            if key is not None and key[0] in ('pair',) and kd == 'map':
                key, val = key[1], key[2]
            out.append(N('ev', at, ek='mut', C=o, op='insert', key=key, v=val, t=ot, assign=nm == 'insert_or_assign'))
            if kd == 'map':
                self.adopt(('val', o, key), val, env, out)
            return ('emp', o, key)
        if cont and nm == 'erase':
            k = args[0] if args else None
            if k is not None and k[0] == 'find' and k[1] == o:
                k = k[2]
                out.append(N('ev', at, ek='mut', C=o, op='erase', key=k, v=None, t=ot))
                return ('after', k)
            out.append(N('ev', at, ek='mut', C=o, op='erase', key=k, v=None, t=ot))
            return ('after', self.uid())
        if cont and nm in ('clear', 'resize', 'assign', 'pop_back', 'swap', 'merge', 'splice', 'remove', 'remove_if', 'sort', 'pop_front'):
            out.append(N('ev', at, ek='mut', C=o, op=nm, key=args[0] if args else None, v=args[1] if len(args) > 1 else None, t=ot))
            return VOID
        if nm in ('reserve', 'shrink_to_fit'):
            return VOID
        if nm == 'c_str':
            return o
        r = ('call', nm, o, tuple(args))
        if not e.get('cst'):
            r = r + (self.uid(),)
        out.append(N('ev', at, ek='call', q=sq, n=nm, o=o, args=tuple(args), c=None, cst=bool(e.get('cst')), r=r, t=e.get('t'), virt=False, std=True, ot=ot))
        return r


def subst_tree(n, m):
    def val(v):
        if isinstance(v, N):
            subst_tree(v, m)
            return v
        if isinstance(v, tuple):
            if any(isinstance(x, N) for x in v):
                return v
            return sub(v, m)
        if isinstance(v, list):
            return [val(x) for x in v]
        return v
    for k in list(n.a):
        n.a[k] = val(n.a[k])


def strip_addr(t):
    while t[0] == 'addr':
        t = t[1]
    return t


def effects(n):
    """does the node contain anything but reads"""
    if n.k in ('throw',):
        return True
    if n.k == 'ev':
        return n.a['ek'] in ('set', 'mut', 'astore') or n.a['ek'] == 'call' and not n.a.get('cst')
    if n.k == 'seq':
        return any(effects(x) for x in n.a['s'])
    if n.k == 'if':
        return effects(n.a['a']) or effects(n.a['b'])
    if n.k == 'loop':
        return effects(n.a['body'])
    if n.k == 'scope':
        return effects(n.a['b'])
    if n.k == 'try':
        return True
    return False


def ends(ss):
    """does the sequence always leave (return, throw, break, continue)"""
    for n in ss:
        if n.k in ('ret', 'throw', 'break', 'continue'):
            return True
        if n.k == 'if' and ends(n.a['a'].a['s']) and ends(n.a['b'].a['s']):
            return True
        if n.k == 'scope' and throws_always(n.a['b'].a['s']):
            return True
        if n.k == 'seq' and ends(n.a['s']):
            return True
    return False


def throws_always(ss):
    for n in ss:
        if n.k == 'throw':
            return True
        if n.k in ('ret', 'break', 'continue'):
            return False
        if n.k == 'if':
            a, b = n.a['a'].a['s'], n.a['b'].a['s']
            if throws_always(a) and throws_always(b):
                return True
            if has_ret(a) or has_ret(b):
                return False
        if n.k == 'scope' and throws_always(n.a['b'].a['s']):
            return True
    return False


def has_ret(ss):
    for n in ss:
        if n.k == 'ret':
            return True
        if n.k == 'if' and (has_ret(n.a['a'].a['s']) or has_ret(n.a['b'].a['s'])):
            return True
        if n.k == 'loop' and has_ret(n.a['body'].a['s']):
            return True
        if n.k == 'seq' and has_ret(n.a['s']):
            return True
        if n.k == 'try' and (has_ret(n.a['b'].a['s'])):
            return True
    return False


THROW = ('throw',)


def early_ret(ss, tail=True):
    """is there a return that is not the last thing done"""
    for i, n in enumerate(ss):
        last = tail and i == len(ss) - 1
        if n.k == 'ret':
            if not last:
                return True
        elif n.k == 'seq':
            if early_ret(n.a['s'], last):
                return True
        elif n.k == 'if':
            if early_ret(n.a['a'].a['s'], False) or early_ret(n.a['b'].a['s'], False):
                return True
        elif n.k == 'loop':
            if n.a['body'] is not None and early_ret(n.a['body'].a['s'], False):
                return True
        elif n.k == 'try':
            if early_ret(n.a['b'].a['s'], False) or any(early_ret(h.a['s'], False) for h in n.a['h']):
                return True
    return False


def snapped(ss, d):
    """the same body, returning the value of the variable d"""
    out = []
    for n in ss:
        if n.k == 'ret':
            n = N('ret', n.at, v=(n.a.get('snap') or {}).get(d, ('unk', 'ret', 0)))
        elif n.k == 'seq':
            n = N('seq', n.at, s=snapped(n.a['s'], d))
        elif n.k == 'if':
            n = N('if', n.at, **dict(n.a, a=N('seq', None, s=snapped(n.a['a'].a['s'], d)), b=N('seq', None, s=snapped(n.a['b'].a['s'], d))))
        elif n.k == 'loop' and n.a['body'] is not None:
            n = N('loop', n.at, **dict(n.a, body=N('seq', None, s=snapped(n.a['body'].a['s'], d))))
        elif n.k == 'try':
            n = N('try', n.at, **dict(n.a, b=N('seq', None, s=snapped(n.a['b'].a['s'], d))))
        out.append(n)
    return out


def retval(ss, rest=()):
    """term returned by a body; None when it has no simple form"""
    ss = list(ss)
    for i, n in enumerate(ss):
        if n.k == 'ret':
            return n.a['v']
        if n.k == 'throw':
            return THROW
        if n.k == 'scope' and throws_always(n.a['b'].a['s']):
            return THROW
        if n.k == 'seq' and has_ret(n.a['s']):
            return retval(n.a['s'] + ss[i + 1:])
        if n.k == 'if' and (has_ret(n.a['a'].a['s']) or has_ret(n.a['b'].a['s']) or ends(n.a['a'].a['s']) or ends(n.a['b'].a['s'])):
            a = retval(n.a['a'].a['s'] + ss[i + 1:])
            b = retval(n.a['b'].a['s'] + ss[i + 1:])
            if a is None or b is None:
                return None
            if a == THROW:
                return b
            if b == THROW:
                return a
            if a == b:
                return a
            return cond(n.a['c'], a, b) if a not in (TRUE, FALSE) or b not in (TRUE, FALSE) else boolc(('cond', n.a['c'], a, b))
        if n.k == 'loop' and has_ret(n.a['body'].a['s']):
            if n.a.get('lo') is None:
                return None
            b = [x for x in n.a['body'].a['s']]
            r = loopret(b)
            if r is None:
                return None
            c, x = r
            after = retval(ss[i + 1:])
            if after is None:
                return None
            q = ('loop', n.a['lid'], n.a['lo'], n.a['hi'], n.a['step'])
            if has(x, n.a['i']):
                x = ('pick', q, c, x)
            v = ('cond', ('anyi', q, c), x, after)
            return boolc(v) if x in (TRUE, FALSE) else cond(*v[1:])
        if n.k == 'try' and has_ret(n.a['b'].a['s']):
            return None
    return VOID


def loopret(b):
    """(condition, value) for a body of the shape: if (c) return x"""
    for i, n in enumerate(b):
        if n.k == 'ret':
            return TRUE, n.a['v']
        if n.k == 'if':
            a, z = n.a['a'].a['s'], n.a['b'].a['s']
            if has_ret(a) and not has_ret(z):
                r = loopret(a)
                if r is None:
                    return None
                if i + 1 < len(b) and any(has_ret([x]) for x in b[i + 1:]):
                    return None
                return (n.a['c'] if r[0] == TRUE else ('&&', n.a['c'], r[0])), r[1]
            if has_ret(z) and not has_ret(a):
                r = loopret(z)
                if r is None:
                    return None
                if i + 1 < len(b) and any(has_ret([x]) for x in b[i + 1:]):
                    return None
                return (neg(n.a['c']) if r[0] == TRUE else ('&&', neg(n.a['c']), r[0])), r[1]
            if has_ret(a):
                return None
            # if (!c) continue; return x
            if a and a[-1].k == 'continue' and not z:
                r = loopret(b[i + 1:])
                if r is None:
                    return None
                c = neg(n.a['c'])
                return (c if r[0] == TRUE else ('&&', c, r[0])), r[1]
        if n.k == 'loop' and has_ret(n.a['body'].a['s']):
            if n.a.get('lo') is None or any(has_ret([x]) for x in b[i + 1:]):
                return None
            r = loopret(n.a['body'].a['s'])
            if r is None:
                return None
            q = ('loop', n.a['lid'], n.a['lo'], n.a['hi'], n.a['step'])
            x = ('pick', q, r[0], r[1]) if has(r[1], n.a['i']) else r[1]
            return ('anyi', q, r[0]), x
    return None


# --------------------------------------------------------------------- printing
def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if not isinstance(k, str):
        return '(' + ', '.join(show(x) for x in t) + ')'
    if k in ('lit', 'bool'):
        return str(t[1])
    if k == 'str':
        return repr(t[1])
    if k == 'this':
        return 'this'
    if k == 'p':
        return t[2]
    if k == 'mem':
        return show(t[1]) + '.' + t[2]
    if k == 'ix':
        return show(t[1]) + '[' + show(t[2]) + ']'
    if k == 'val' and len(t) > 2:
        return show(t[1]) + '{' + show(t[2]) + '}'
    if k == 'key':
        return 'key(' + show(t[1]) + ',' + show(t[2]) + ')'
    if k == 'i':
        return 'i%s' % t[1]
    if k == 'rel':
        return '(' + show(t[2]) + t[1] + show(t[3]) + ')'
    if k == '!':
        return '!' + show(t[1])
    if k == 'var':
        return '%' + t[2]
    if k == 'enum':
        return t[3]
    if k in ('&&', '||', '+', '-', '*', '/', '%'):
        return '(' + show(t[1]) + k + show(t[2]) + ')'
    if k == 'phi':
        return 'phi%s.%s' % (t[1], t[2][1])
    if k == 'loop':
        return 'i%s in %s..%s' % (t[1], show(t[2]), show(t[3])) + ('' if t[4] == 1 else ' by ' + show(t[4]))
    if k == 'or':
        return ' OR '.join('{' + ' & '.join(show(y) for y in x) + '}' for x in t[1])
    return k + '(' + ', '.join(show(x) for x in t[1:]) + ')'


def dump(n, ind=0, out=None):
    pre = '  ' * ind
    if out is None:
        out = []
    at = ('%s:%s' % (n.at[0].split('/')[-1], n.at[1])) if n.at else ''
    if n.k == 'seq':
        for x in n.a['s']:
            dump(x, ind, out)
    elif n.k == 'if':
        out.append(pre + 'if ' + show(n.a['c']) + '   @' + at)
        dump(n.a['a'], ind + 1, out)
        if n.a['b'].a['s']:
            out.append(pre + 'else')
            dump(n.a['b'], ind + 1, out)
    elif n.k == 'loop':
        out.append(pre + 'loop %s i%s %s..%s by %s C=%s while %s @%s' % (n.a['lk'], n.a['lid'], show(n.a['lo']), show(n.a['hi']), show(n.a['step']), show(n.a['C']), show(n.a['c']), at))
        dump(n.a['body'], ind + 1, out)
    elif n.k == 'scope':
        out.append(pre + 'scope ' + n.a['n'] + ' -> ' + show(n.a['r'])[:200])
        dump(n.a['b'], ind + 1, out)
    elif n.k == 'try':
        out.append(pre + 'try')
        dump(n.a['b'], ind + 1, out)
        for h in n.a['h']:
            out.append(pre + 'catch')
            dump(h, ind + 1, out)
    elif n.k == 'ev':
        out.append(pre + n.a['ek'] + ' ' + ' '.join('%s=%s' % (k, show(v)) for k, v in n.a.items() if k not in ('ek', 'c', 't', 'q', 'cst', 'virt', 'std', 'ot', 'task') and v is not None) + ' @' + at)
        if n.a.get('task'):
            out.append(pre + '  task')
            dump(n.a['task'], ind + 2, out)
    else:
        out.append(pre + n.k + (' ' + show(n.a['v']) if 'v' in n.a else '') + ' @' + at)
    return out
