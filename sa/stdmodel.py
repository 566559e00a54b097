"""Abstract semantics of the standard library types used by the program."""
import ctypes_ as T
from terms import *


def last_name(q):
    """last component of a qualified name"""
    for op in ('operator->', 'operator>=', 'operator<=', 'operator>>', 'operator<<',
               'operator>', 'operator<', 'operator()'):
        if q.endswith('::' + op):
            return op
    d = 0
    i = len(q) - 1
    while i > 0:
        ch = q[i]
        if ch == '>':
            d += 1
        elif ch == '<':
            d -= 1
        elif ch == ':' and d == 0 and q[i - 1] == ':':
            return strip_t(q[i + 1:])
        i -= 1
    return strip_t(q)


def strip_t(n):
    i = n.find('<')
    return n[:i] if i > 0 and not n.startswith('operator') else n


STRUCT_ = ('in', 'empty', 'built', 'ver', 'ents', 'ent', 'isend', 'idx', 'last')


class StdModel:
    # ------------------------------------------------------- container queries
    def ver(self, st, C):
        return st.facts.get(('ver', C))

    def is_in(self, st, C, k):
        f = st.facts.get(('in', C, k))
        if f is not None:
            return f
        e = st.facts.get(('empty', C))
        if e is True:
            return False
        if k[0] == 'b' and k[1] == C and e is False and k[2] == st.facts.get(('ver', C)):
            return True
        for kk, m in st.facts.items():
            if kk[0] == 'rel' and m == 2:
                o = kk[2] if kk[1] == k else kk[1] if kk[2] == k else None
                if o is not None:
                    f = st.facts.get(('in', C, o))
                    if f is not None:
                        return f
        return None

    def isin(self, st, C, k):
        f = self.is_in(st, C, k)
        return ('isin', C, k) if f is None else ('c', f)

    def isempty(self, st, C):
        f = st.facts.get(('empty', C))
        if f is not None:
            return ('c', f)
        for k, v in st.facts.items():
            if k[0] == 'in' and k[1] == C and v:
                return FALSE
        return ('isempty', C)

    def assume_in(self, st, C, k, b):
        f = self.is_in(st, C, k)
        if f is not None:
            return st if f == b else None
        s = st.copy()
        s.facts[('in', C, k)] = b
        if b:
            s.facts[('empty', C)] = False
            a = ('all', C)
            if self.live(s, a) and not self.live(st, ('at', C, k)):
                s = self.inherit(s, C, k)
        return s

    def inherit(self, st, C, k):
        """what holds of all the elements holds of this one"""
        a = ('all', C)
        s = st.copy()
        for f, v in st.facts.items():
            if f[0] in ('in', 'empty', 'built', 'ver', 'ents', 'ent'):
                if not (f[0] == 'in' and f[2] == a):
                    continue
            if mentions(f, a):
                n = subst(f, a, k)
                if n not in s.facts:
                    s.facts[n] = subst(v, a, k) if isinstance(v, tuple) else v
        return s

    def assume_empty(self, st, C, b):
        e = self.isempty(st, C)
        if e[0] == 'c':
            return st if e[1] == b else None
        s = st.copy()
        s.facts[('empty', C)] = b
        return s

    def size_of(self, st, C):
        if st.facts.get(('empty', C)) is True:
            return ('c', 0)
        return ('sz', C, st.facts.get(('ver', C)))

    def it_cmp(self, st, a, b):
        if a[0] == 'itend' and b[0] != 'itend':
            a, b = b, a
        if b[0] == 'itend':
            if a[0] == 'itend':
                return TRUE if a[1] == b[1] else None
            if a[0] == 'itf' and a[1] == b[1]:
                return self.neg(self.isin(st, a[1], a[2]))
            if a[0] == 'it' and a[1] == b[1]:
                k = a[2]
                if k[0] == 'b':
                    return self.isempty(st, a[1])
                f = st.facts.get(('in', a[1], k))
                if f is True:
                    return FALSE
                if f is False:
                    return None
                return self.neg(('isin', a[1], k)) if k[0] == 'nx' else FALSE
        return None

    # --------------------------------------------------------------- mutations
    def bump(self, st, C, node, fr):
        site = (fr.id, node['nid'])
        for b in (('b', C, site), ('back', C, site)):
            if self.live(st, b):
                st = self.rename(st, b, ('o', b))
        sz = ('sz', C, site)
        if self.live(st, sz):
            st = self.forget(st, sz)
        s = st.copy()
        s.facts[('ver', C)] = site
        return s

    def kill_iters(self, st, C, key, keep=None, refs=True, iters=True):
        """iterators/references to C's element (all of them when key is None)"""
        s = None
        for k, v in list(st.env.items()):
            n = None
            if iters and v[0] in ('it', 'itf') and v[1] == C and (key is None or v[2] == key) and v != keep:
                n = ('dead', v)
            elif refs and v[0] == 'ref' and self.under(v[1], C, key):
                n = ('ref', ('DEAD', v[1]))
            elif refs and v[0] == 'p' and self.under(v[1], C, key):
                n = ('p', ('DEAD', v[1]))
            if n is not None:
                if s is None:
                    s = st.copy()
                s.env[k] = n
        return s or st

    def under(self, loc, C, key):
        while loc[0] in ('F', 'E'):
            if loc[0] == 'E' and loc[1] == C and (key is None or loc[2] == key):
                return True
            loc = loc[1]
        if loc[0] == 'PR':
            return loc[1] == C and (key is None or loc[2] == key)
        return False

    def qsubst(self, st, v, site):
        """v with the symbols of the current iterations replaced by symbols that
        denote what was added at this site"""
        syms = []
        find_syms(v, VOLATILE, syms)
        for g in syms:
            q = ('q', site, g)
            st = self.copy_facts(st, g, q, weak=True, items=False)
            v = subst(v, g, q)
        return st, v

    def add_ent(self, s, C, id, val):
        """in place"""
        ents = s.facts.get(('ents', C), ())
        if id not in ents:
            s.facts[('ents', C)] = tuple(sorted(ents + (id,), key=tid))
            s.facts[('ent', C, id)] = val
        else:
            o = s.facts.get(('ent', C, id))
            s.facts[('ent', C, id)] = val if o is None or o == val else TOP

    def ins_key(self, st, C, k, node, fr, op='insert'):
        """key k becomes part of the set/map C"""
        site = (fr.id, node['nid'])
        st, kq = self.qsubst(st, k, site)
        s = st.copy()
        self.add_ent(s, C, site, kq)
        s.facts[('in', C, k)] = True
        if kq != k:
            s.facts[('in', C, kq)] = True
        s.facts[('empty', C)] = False
        s = self.kill_iters(s, C, None, refs=False)
        s = self.bump(s, C, node, fr)
        return self.cl.on_mut(self, s, C, op, k, node, fr)

    def erase_key(self, st, C, k, node, fr):
        s = self.kill_iters(st, C, k)
        s = s.copy()
        for x in list(s.env):
            if is_prefix(('E', C, k), x):
                del s.env[x]
        s.facts[('in', C, k)] = False
        s.facts.pop(('empty', C), None)
        s = self.bump(s, C, node, fr)
        return self.cl.on_mut(self, s, C, 'erase', k, node, fr)

    def erase_seq(self, st, C, k, node, fr, linked):
        s = self.kill_iters(st, C, k if linked else None)
        s = s.copy()
        if linked:
            for x in list(s.env):
                if is_prefix(('E', C, k), x):
                    del s.env[x]
        s.facts[('in', C, k)] = False
        s.facts.pop(('empty', C), None)
        s.facts.pop(('last', C), None)
        s = self.bump(s, C, node, fr)
        return self.cl.on_mut(self, s, C, 'erase', k, node, fr)

    def clear_cont(self, st, C, node, fr, op='clear'):
        s = self.kill_iters(st, C, None)
        a = ('all', C)
        if self.live(s, a):
            s = self.forget(s, a)
        s = s.copy()
        self.clear_loc(s, C)
        s.env.pop(C, None)
        s.facts[('built', C)] = True
        s.facts[('empty', C)] = True
        s = self.bump(s, C, node, fr)
        return self.cl.on_mut(self, s, C, op, None, node, fr)

    def push(self, st, C, node, fr, ctype, args, where='back'):
        """[(st, LOC of the new element)]; args: Rs already evaluated"""
        site = (fr.id, node['nid'])
        pk = ('pk', site)
        st = self.fresh_ent(st, C, site, pk)
        ta = T.targs(ctype)
        et = ta[0] if ta else ''
        loc = ('E', C, pk)
        s = st.copy()
        self.clear_loc(s, loc)
        s.env.pop(loc, None)
        if T.base(ctype) in ('std::vector', 'std::deque'):
            s = self.kill_iters(s, C, None, refs=T.base(ctype) == 'std::vector')
        states = self.build_at(s, loc, et, args, node, fr)
        out = []
        for s in states:
            s = s.copy()
            if T.is_obj(et):
                for k in [k for k in s.env if is_prefix(loc, k)]:
                    v = s.env[k]
                    if v[0] != 'ref':
                        s, v2 = self.qsubst(s, v, site)
                        s.env[k] = v2
                s = s.copy()
                self.add_ent(s, C, site, ('obj', loc))
            else:
                v = self.load(s, loc)
                s, v2 = self.qsubst(s, v, site)
                s = s.copy()
                s.env[loc] = v2 if v2 != v else v
                self.add_ent(s, C, site, v2)
            s.facts[('in', C, pk)] = True
            s.facts[('empty', C)] = False
            if where == 'back':
                s.facts[('last', C)] = pk
            s = self.bump(s, C, node, fr)
            s = self.cl.on_mut(self, s, C, 'push', pk, node, fr)
            out.append((s, ('LOC', loc)))
        return out

    def fresh_ent(self, st, C, site, pk):
        if self.live(st, pk):
            ents = st.facts.get(('ents', C), ())
            had = site in ents
            val = st.facts.get(('ent', C, site))
            st = self.rename(st, pk, ('o', pk))
            if had and val is not None and val[0] == 'obj':
                st = st.copy()
                self.add_ent(st, C, ('o', site), ('obj', ('E', C, ('o', pk))))
                st.facts.pop(('ent', C, site), None)
                st.facts[('ents', C)] = tuple(x for x in st.facts[('ents', C)] if x != site)
        return st

    def build_at(self, st, loc, t, args, node, fr):
        """object of type t constructed at loc from args"""
        k = T.kind(t)
        if not args:
            return [self.default_init(st, loc, t, node, fr)]
        if k == 'opt' and not (args[0][0] in ('obj',)):
            return [self.opt_assign(st, loc, self.rval(st, args[0], 'x'), node, fr, quiet=True)]
        if len(args) == 1:
            a = args[0]
            if a[0] == 'LOC':
                if k in T.OBJ:
                    if k == 'rec':
                        r = self.ctor_for(t, args, st, loc, node, fr, copy_ok=True)
                        if r is not None:
                            return r
                    return [self.copy_object(st, a[1], loc)]
                return [self.store(st, loc, self.load(st, a[1]), node, fr, quiet=True)]
            if a[0] == 'obj' or k not in T.OBJ:
                return [self.store(st, loc, a, node, fr, quiet=True)]
        if k == 'rec':
            r = self.ctor_for(t, args, st, loc, node, fr)
            if r is not None:
                return r
        if k == 'pair':
            s = st
            names = ('first', 'second') if T.base(t) == 'std::pair' else tuple(str(i) for i in range(9))
            for n, a in zip(names, args):
                s = self.store(s, ('F', loc, n), ('obj', a[1]) if a[0] == 'LOC' and False else self.rval(s, a, 'x'), node, fr, quiet=True)
            return [s]
        s = st.copy()
        self.clear_loc(s, loc)
        s.env[loc] = ('mkv', T.base(t), (fr.id, node['nid']), tuple(self.flat(s, a) for a in args))
        return [s]

    def ctor_for(self, t, args, st, loc, node, fr, copy_ok=False):
        q = T.base(t)
        cand = [f for f in self.p.funcs.values() if f.get('ctor') and f.get('cls') in (q, T.strip(t))
                and not f.get('implicit') and len(f['params']) == len(args) and f.get('body')]
        if copy_ok:
            # single argument: copies are handled by the caller
            cand = [f for f in cand if T.strip(f['params'][0]['t']) != T.strip(t)]
            if len(cand) != 1 or True:
                return None
        if len(cand) == 1 and not self.cl.opaque(cand[0]):
            return [s for s, _ in self.call_fn(cand[0], st, loc, list(args), node, fr)]
        return None

    def rval(self, st, R, e):
        if R[0] == 'LOC':
            v = st.env.get(R[1])
            if v is not None and v[0] not in ('ref', 'cpy'):
                return v
            return self.load(st, R[1])
        return R

    # --------------------------------------------------------------- optionals
    def opt_assign(self, st, loc, v, e, fr, quiet=False):
        s = st.copy()
        self.clear_loc(s, loc)
        s.env.pop(loc, None)
        if v == ('nullopt',):
            s.env[('F', loc, '?')] = FALSE
        elif v[0] == 'obj' and (('F', v[1], '?') in s.env):
            s = self.copy_object(s, v[1], loc)
        elif v == TOP or v[0] in ('res', 'call', 'h'):
            s.env[('F', loc, '?')] = TRUE
            s.env[('F', loc, '*')] = v
        else:
            s.env[('F', loc, '?')] = TRUE
            s = self.store(s, ('F', loc, '*'), v, e, fr, quiet=True)
        if not quiet:
            s = self.cl.on_store(self, s, loc, v, e, fr)
        return s

    # ------------------------------------------------------------------- lists
    def make_list(self, st, loc, exprs, e, fr):
        st = st.copy()
        self.clear_loc(st, loc)
        st.env.pop(loc, None)
        st.facts[('built', loc)] = True
        st.facts[('empty', loc)] = not exprs
        k = T.kind(e['t'])
        cur = [st]
        for i, a in enumerate(exprs or []):
            if a is None:
                continue
            nxt = []
            for s0 in cur:
                for s, v in self.rv(a, s0, fr):
                    site = (fr.id, e['nid'], i)
                    s = s.copy()
                    if k in ('set',):
                        s, vq = self.qsubst(s, v, site)
                        s = s.copy()
                        self.add_ent(s, loc, site, vq)
                        s.facts[('in', loc, v)] = True
                    elif k == 'map':
                        if v[0] == 'obj':
                            key = self.load(s, ('F', v[1], 'first'))
                            s = self.copy_object(s, ('F', v[1], 'second'), ('E', loc, key))
                            s = s.copy()
                            self.add_ent(s, loc, site, key)
                            s.facts[('in', loc, key)] = True
                    else:
                        el = ('E', loc, ('c', i))
                        if v[0] == 'obj':
                            s = self.copy_object(s, v[1], el)
                            s = s.copy()
                            self.add_ent(s, loc, site, ('obj', el))
                        else:
                            s.env[el] = v
                            s, vq = self.qsubst(s, v, site)
                            s = s.copy()
                            self.add_ent(s, loc, site, vq)
                        s.facts[('in', loc, ('c', i))] = True
                        s.facts[('last', loc)] = ('c', i)
                    s.facts[('empty', loc)] = False
                    nxt.append(s)
            cur = nxt
        return [(s, ('obj', loc)) for s in cur]

    def fill_from(self, st, C, D, dk, ck, node, fr):
        """adds to C all the elements of D (without clearing C)"""
        site = (fr.id, node['nid'])
        s = st
        if s.facts.get(('empty', D)) is True:
            return s
        for kd in self.kinds(s, D):
            if kd[0] == 'base':
                q = ('q', site, ('all', D))
                s = self.copy_facts(s, ('all', D), q, weak=True)
                if dk in ('set', 'map'):
                    val = q
                else:
                    val = ('ld', ('E', D, q))
                id = (site, 'base')
            else:
                val = s.facts.get(('ent', D, kd[1]))
                if val is None:
                    continue
                id = (site, kd[1])
            s = s.copy()
            if val[0] == 'obj' and ck == 'seq':
                pk = ('pk', id)
                s = self.copy_object(s, val[1], ('E', C, pk))
                val = ('obj', ('E', C, pk))
                s = s.copy()
            self.add_ent(s, C, id, val)
            if ck in ('set', 'map') and val[0] != 'obj':
                s.facts[('in', C, val)] = True
        s = s.copy()
        s.facts.pop(('empty', C), None)
        s.facts.pop(('last', C), None)
        return s

    # ------------------------------------------------------------ constructors
    def std_ctor_q(self, e):
        q = e.get('q') or ''
        return q.startswith(('std::', '__gnu_cxx::', 'nlohmann::'))

    def std_ctor(self, e, st, fr):
        q = e.get('q') or ''
        if q in ('EFG::Visitor', 'EFG::VisitorConst'):
            loc = ('T', fr.id, e['nid'])
            out = []
            for s, args in self.eval_any(e.get('a') or [], st, fr):
                s = s.copy()
                self.clear_loc(s, loc)
                s.env.pop(loc, None)
                for i, a in enumerate(args):
                    s.env[('F', loc, '#f%d' % i)] = self.rval(s, a, None)
                out.append((s, ('obj', loc)))
            return out
        if not self.std_ctor_q(e):
            return None
        k = T.kind(q if q != 'std::function' else 'std::function')
        a = [x for x in (e.get('a') or []) if x is not None and x.get('k') != 'defarg']
        cm = e.get('cm')
        loc = ('T', fr.id, e['nid'])
        if q == 'std::nullopt_t':
            return [(st, ('nullopt',))]
        if k in ('ptr', 'it', 'fn', 'str', 'atomic'):
            if not a:
                return [(st, NULL if k in ('ptr', 'fn') else ('c', '') if k == 'str' else ('c', 0) if k == 'atomic' else ('itnone',))]
            out = []
            for s, R in self.ev(a[0], st, fr):
                if R[0] == 'LOC':
                    s2, v = self.rload(s, R[1], a[0], fr)
                    if v[0] == 'obj':
                        v = self.load(s2, v[1]) if k != 'fn' else ('fnobj', v[1])
                    if k == 'ptr' and T.kind(a[0]['t']) == 'ptr' and self.is_move(e, a[0]):
                        s2 = self.store(s2, R[1], NULL, e, fr, quiet=root(R[1])[0] in ('L', 'T'))
                    out.append((s2, v))
                else:
                    if R[0] == 'obj':
                        R = s.env.get(R[1]) or ('res', q, fr.id, e['nid'])
                    out.append((s, R))
            return out
        st = st.copy()
        self.clear_loc(st, loc)
        st.env.pop(loc, None)
        if self.live(st, ('all', loc)):
            st = self.forget(st, ('all', loc))
        if not a or (k in T.CONT and all(T.base(x['t']) == 'std::allocator' for x in a)):
            return [(self.default_init(st, loc, e['t'] if T.kind(e['t']) == k else q, e, fr), ('obj', loc))]
        if cm in ('copy', 'move'):
            out = []
            for s, l in self.lv(a[0], st, fr):
                if l[0] == 'T':
                    out.append((s, ('obj', l)))
                    continue
                s = self.cl.on_load(self, s, l, e, fr)
                s = self.copy_object(s, l, loc)
                if cm == 'move' and k in T.CONT:
                    s = self.clear_cont(s, l, e, fr, op='clear' if root(l)[0] not in ('L', 'T') else 'moved')
                out.append((s, ('obj', loc)))
            return out
        if k == 'opt':
            out = []
            for s, v in self.rv(a[0], st, fr):
                if v[0] == 'obj' and T.kind(a[0]['t']) == 'opt':
                    s = self.copy_object(s, v[1], loc)
                else:
                    s = self.opt_assign(s, loc, v, e, fr, quiet=True)
                out.append((s, ('obj', loc)))
            return out
        if k == 'var':
            i = self.var_index(e['t'], a[0]['t'])
            out = []
            for s, v in self.rv(a[0], st, fr):
                s = s.copy()
                s.env[('F', loc, '#')] = ('c', i)
                s = self.store(s, ('F', loc, '@%s' % i), v, e, fr, quiet=True)
                out.append((s, ('obj', loc)))
            return out
        if k in ('set', 'map', 'seq'):
            if a[0].get('k') == 'init' or T.base(a[0]['t']) == 'std::initializer_list':
                x = a[0]
                while x.get('k') in ('cast', 'ctor') and x.get('e'):
                    x = x['e']
                if x.get('k') == 'init':
                    y = dict(e)
                    y['a'] = x['a']
                    return self.make_list(st, loc, x['a'], e, fr)
            if len(a) >= 2 and T.kind(a[0]['t']) == 'it' and T.kind(a[1]['t']) == 'it':
                out = []
                for s, (x, y) in [(s, v) for s, v in self.eval_args_v(a[:2], st, fr)]:
                    s = s.copy()
                    s.facts[('built', loc)] = True
                    D = self.full_range(x, y)
                    if D is not None:
                        s = self.fill_from(s, loc, D, self.ikind(a[0]['t']), k, e, fr)
                    else:
                        s.facts.pop(('built', loc), None)
                        s.env[loc] = ('res', 'range', fr.id, e['nid'])
                    out.append((s, ('obj', loc)))
                return out
            if k == 'seq' and T.kind(a[0]['t']) == 'num':
                out = []
                for s, v in self.rv(a[0], st, fr):
                    cur = [s]
                    for x in a[1:2]:
                        cur = [z for y in cur for z, _ in self.ev(x, y, fr)]
                    for s2 in cur:
                        s2 = self.bump(s2, loc, e, fr)
                        sz = self.size_of(s2, loc)
                        s2.facts[('rel', sz, v)] = 2
                        s2.env[loc] = ('mkv', q, (fr.id, e['nid']), (v,))
                        out.append((s2, ('obj', loc)))
                return out
        if k == 'pair':
            out = []
            if len(a) == 1:
                return [(self.copy_object(s, l, loc), ('obj', loc)) for s, l in self.lv(a[0], st, fr)]
            names = ('first', 'second') if q == 'std::pair' else tuple(str(i) for i in range(9))
            for s, vs in self.eval_args_v(a, st, fr):
                for n, v in zip(names, vs):
                    s = self.store(s, ('F', loc, n), v, e, fr, quiet=True)
                out.append((s, ('obj', loc)))
            return out
        if k == 'json':
            out = []
            for s, v in self.rv(a[0], st, fr):
                s = s.copy()
                s.env[loc] = ('jv', v if v[0] != 'obj' else ('at', v[1]))
                out.append((s, ('obj', loc)))
            return out
        out = []
        for s, args in self.eval_any(a, st, fr):
            s = s.copy()
            s.env[loc] = ('mkv', q, (fr.id, e['nid']), tuple(self.flat(s, x) for x in args))
            out.append((s, ('obj', loc)))
        return out

    def eval_args_v(self, exprs, st, fr):
        cur = [(st, ())]
        for a in exprs:
            cur = [(s2, acc + (v,)) for s, acc in cur for s2, v in self.rv(a, s, fr)]
        return cur

    def is_move(self, e, arg):
        if e.get('cm') == 'move':
            return True
        if e.get('cm') == 'copy':
            return False
        a = arg
        while a.get('k') == 'cast':
            a = a['e']
        return a.get('k') == 'call' and last_name(a.get('q') or '') in ('move', 'forward')

    def var_index(self, vt, t):
        ta = T.targs(vt)
        for i, x in enumerate(ta):
            if T.same(x, t):
                return i
        ts = T.strip(t)
        for i, x in enumerate(ta):
            if T.strip(x).split('::')[-1] == ts.split('::')[-1]:
                return i
        return '?'

    # ------------------------------------------------------------------- calls
    def std_modelled(self, q):
        if q in getattr(self.cl, 'no_model', ()):
            return False
        return q.startswith(('EFG::Visitor<', 'EFG::VisitorConst<')) and q.endswith('::visit') or \
            q == 'EFG::strct::Pool::parallelFor'

    def ikind(self, t):
        """kind of container an iterator type walks"""
        b = T.base(t)
        ta = T.targs(t)
        if 'Node' in b or 'Rb_tree' in b:
            return 'map' if ta and T.base(ta[0]) == 'std::pair' else 'set'
        if 'iter_impl' in b:
            return 'json'
        return 'seq'

    def full_range(self, a, b):
        if b[0] == 'itend' and a[0] == 'it' and a[1] == b[1] and a[2][0] == 'b':
            return a[1]
        return None

    def elem_R(self, st, C, k, kd):
        if kd == 'map':
            return ('LOC', ('PR', C, k))
        if kd == 'set':
            return k
        if kd == 'seq' and k[0] == 'b' and st.facts.get(('built', C)) and ('E', C, ('c', 0)) in st.env:
            return ('LOC', ('E', C, ('c', 0)))
        return ('LOC', ('E', C, k))

    def it_deref(self, st, v, kd, e, fr):
        """[(st,R)]"""
        if v[0] == 'itf':
            f = self.is_in(st, v[1], v[2])
            if f is not True and not self.cl.axiom_found(self, st, v[1]):
                st = self.cl.on_bad(self, st, ('end' if f is False else 'unchecked', v[1], v[2]), e, fr)
            return [(st, self.elem_R(st, v[1], v[2], kd))]
        if v[0] == 'it':
            if v[2][0] == 'b':
                em = self.isempty(st, v[1])
                if em == TRUE:
                    st = self.cl.on_bad(self, st, ('end', v[1], None), e, fr)
            return [(st, self.elem_R(st, v[1], v[2], kd))]
        if v[0] == 'itend':
            st = self.cl.on_bad(self, st, ('end', v[1], None), e, fr)
            return [(st, ('LOC', ('E', v[1], ('end',))))]
        if v[0] == 'dead':
            st = self.cl.on_bad(self, st, ('dead', v[1]), e, fr)
            v = v[1]
            return [(st, self.elem_R(st, v[1], v[2], kd))]
        if v == ('itnone',):
            return [(st, ('LOC', ('D', v)))]
        return [(st, ('LOC', ('D', v)) if kd != 'set' else ('ld', ('D', v)))]

    def it_next(self, st, v, e, fr):
        C = v[1][1] if v[0] == 'dead' else v[1] if len(v) > 1 and isinstance(v[1], tuple) else None
        if v[0] == 'dead':
            st = self.cl.on_bad(self, st, ('dead', v[1]), e, fr)
        if v[0] not in ('it', 'itf', 'dead'):
            return st, ('res', 'it', fr.id, e['nid'])
        nx = ('nx', (fr.id, e['nid']))
        st = self.fresh(st, nx)
        return st, ('it', C, nx)

    def objs(self, e, st, fr):
        o = e.get('o')
        if o is None:
            return [(st, None)]
        if e.get('ar'):
            return [(s, deref(v)) for s, v in self.rv(o, st, fr)]
        return self.lv(o, st, fr)

    def run_elems(self, e, C, kd, fnv, st, fr, want=None):
        """visits C calling the closure on each element. want: keep only the runs
        giving that truth value"""
        ct = {'map': 'std::map', 'set': 'std::set', 'seq': 'std::vector'}.get(kd, 'std::vector')

        def cl(s, elem):
            R = self.elem_R(s, C, elem, kd)
            ch = {'n': [], 'r': [], 'b': [], 'c': []}
            for s2, r in self.call_closure(fnv, s, [R], e, fr):
                if want is None:
                    ch['n'].append(s2)
                    continue
                if r[0] == 'LOC':
                    r = self.load(s2, r[1])
                x = self.assume(s2, r, want)
                if x is not None:
                    ch['n'].append(x)
            return ch
        ch = self.visit(e, st, C, None, fr, mk='fn', closure=cl, ctype=ct)
        return ch['n']

    def pick_elem(self, e, C, kd, fnv, st, fr, want):
        """[(st,key)]: an element for which the closure gives want"""
        out = []
        ct = {'map': 'std::map', 'set': 'std::set', 'seq': 'std::vector'}.get(kd, 'std::vector')
        lid = (fr.id, e['nid'])
        g = ('nx', lid)
        if st.facts.get(('empty', C)) is True:
            return []
        for x in self.kinds(st, C):
            s, el, syms = self.pick(st, C, x, g, lid, 'fn', ct)
            if s is None:
                continue
            R = self.elem_R(s, C, el, kd)
            for s2, r in self.call_closure(fnv, s, [R], e, fr):
                if r[0] == 'LOC':
                    r = self.load(s2, r[1])
                y = self.assume(s2, r, want)
                if y is not None:
                    out.append((y, el))
        return out

    def eq_value(self, st, R, val, e, fr):
        v = self.rval(st, R, None)
        return self.cmp(st, '==', v, val)

    def find_closure(self, val):
        return ('eqv', val)

    def algo(self, n, e, st, fr):
        """algorithms on complete ranges. None when not applicable"""
        a = e.get('a') or []
        out = []
        for s, vs in self.eval_args_v(a, st, fr):
            if len(vs) < 2:
                return None
            C = self.full_range(vs[0], vs[1])
            kd = self.ikind(a[0]['t'])
            fnv = vs[2] if len(vs) > 2 else None
            if fnv is not None and fnv[0] == 'obj':
                fnv = s.env.get(fnv[1]) or fnv
            if n == 'distance':
                if C is not None:
                    out.append((s, self.size_of(s, C)))
                elif vs[0][0] == 'it' and vs[0][2][0] == 'b' and vs[1][0] in ('it', 'itf'):
                    out.append((s, ('pos', vs[1][1], vs[1][2])))
                else:
                    out.append((s, ('op', '-', vs[1], vs[0])))
                continue
            if n in ('max_element', 'min_element'):
                if C is None:
                    out.append((s, ('res', n, fr.id, e['nid'])))
                else:
                    out.append((s, ('it', C, ('ext', n, C, self.ver(s, C)))))
                continue
            if n in ('accumulate',):
                out.append((s, ('res', n, fr.id, e['nid'])))
                continue
            if C is None or fnv is None or (fnv[0] != 'fn' and n != 'find'):
                # partial range
                if fnv is not None and fnv[0] == 'fn':
                    for s2 in self.maybe_run(fnv, s, e, fr):
                        out.append((s2, ('res', n, fr.id, e['nid'])))
                else:
                    out.append((s, ('res', n, fr.id, e['nid'])))
                continue
            if n == 'for_each':
                for s2 in self.run_elems(e, C, kd, fnv, s, fr):
                    out.append((s2, fnv))
                continue
            if n == 'find':
                if kd == 'set':
                    out.append((s, ('itf', C, vs[2])))
                    continue
                fnv = ('eqv', vs[2])
            pol = n != 'all_of' and n != 'find_if_not'
            found = self.pick_elem(e, C, kd, fnv, s, fr, pol)
            nf = [] if self.cl.axiom_found(self, s, C) else self.run_elems(e, C, kd, fnv, s, fr, not pol)
            for s2, el in found:
                if n in ('find_if', 'find', 'find_if_not'):
                    out.append((s2, ('it', C, el)))
                else:
                    out.append((s2, TRUE if n == 'any_of' else FALSE))
            for s2 in nf:
                if n in ('find_if', 'find', 'find_if_not'):
                    out.append((s2, ('itend', C)))
                else:
                    out.append((s2, FALSE if n == 'any_of' else TRUE))
        return out

    ALGO = ('find_if', 'find', 'find_if_not', 'any_of', 'all_of', 'none_of', 'for_each', 'distance',
            'max_element', 'min_element', 'accumulate')

    def std_call(self, e, q, st, fr):
        n = last_name(q)
        op = e.get('op')
        o = e.get('o')
        a = e.get('a') or []
        if self.std_modelled(q):
            if n == 'visit':
                return self.efg_visit(e, st, fr)
            if n == 'parallelFor':
                return self.par_for(e, st, fr)
        if o is None:
            return self.free_call(e, q, n, op, a, st, fr)
        ok = T.kind(o['t'])
        ot = o['t']
        if e.get('ar'):
            ot = T.strip(o['t'])
            ot = ot[:-1].strip() if ot.endswith('*') else ot
            ok = T.kind(ot)
        if ok in T.CONT and not (ok == 'json' and n not in ('operator[]', 'at', 'operator=', 'begin', 'end', 'size', 'emplace_back', 'push_back', 'empty')):
            return self.cont_call(e, n, ok, ot, a, st, fr)
        if ok == 'it':
            return self.it_call(e, n, o, a, st, fr)
        if ok == 'ptr':
            return self.ptr_call(e, n, o, a, st, fr)
        if ok == 'opt':
            return self.opt_call(e, n, ot, a, st, fr)
        if ok == 'var':
            return self.var_call(e, n, ot, a, st, fr)
        if ok == 'fn' or n == 'operator()' and self.lambda_type(o['t']):
            out = []
            if n == 'operator()':
                for s, l in self.objs(e, st, fr):
                    v = self.load(s, l)
                    for s2, args in self.eval_any(a, s, fr):
                        if v[0] in ('fn', 'fnref'):
                            out.extend(self.call_closure(v, s2, list(args), e, fr))
                        else:
                            r = self.cl.ext_call(self, s2, 'std::function::operator()', l, args, e, fr)
                            out.extend(r if r is not None else [(s2, ('res', 'fn', fr.id, e['nid']))])
                return out
            if n == 'operator=':
                for s, v in self.rv(a[0], st, fr):
                    for s2, l in self.objs(e, s, fr):
                        out.append((self.store(s2, l, v, e, fr), ('LOC', l)))
                return out
            if n == 'operator bool':
                return [(s, self.cmp(s, '!=', self.load(s, l), NULL)) for s, l in self.objs(e, st, fr)]
        if ok == 'atomic':
            out = []
            for s, l in self.objs(e, st, fr):
                if n in ('load', 'operator bool') or n.startswith('operator ') or not a and n != 'operator=':
                    s = self.cl.on_load(self, s, l, e, fr)
                    out.append((s, self.load(s, l)))
                elif n in ('store', 'operator=', 'exchange'):
                    for s2, v in self.rv(a[0], s, fr):
                        out.append((self.store(s2, l, v, e, fr), v))
                else:
                    return None
            return out
        if ok == 'str':
            return self.str_call(e, n, a, st, fr)
        return None

    def lambda_type(self, t):
        return '(lambda' in t

    # ---------------------------------------------------------- free functions
    def free_call(self, e, q, n, op, a, st, fr):
        if not q.startswith(('std::', '__gnu_cxx::', 'nlohmann::', 'operator')):
            return None
        if n in ('move', 'forward', 'as_const', 'ref', 'cref', 'move_if_noexcept', 'static_pointer_cast',
                 'const_pointer_cast', 'addressof') and len(a) == 1:
            if n == 'addressof':
                return [(s, addr(l)) for s, l in self.lv(a[0], st, fr)]
            return self.ev(a[0], st, fr)
        if n == 'dynamic_pointer_cast':
            tt = e['t']
            x = T.targs(tt)
            y = {'k': 'cast', 'ck': 'dynamic', 'tt': (x[0] if x else tt) + ' *', 'e': a[0], 't': tt, 'nid': e['nid'], 'l': e['l']}
            return self.dyn_cast(y, st, fr)
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(a) == 2:
            return self.cmp_call(e, op, a, st, fr)
        if n in self.ALGO:
            return self.algo(n, e, st, fr)
        if n in ('begin', 'end', 'cbegin', 'cend') and len(a) == 1:
            out = []
            for s, l in self.lv(a[0], st, fr):
                out.append((s, ('it', l, ('b', l, self.ver(s, l))) if 'begin' in n else ('itend', l)))
            return out
        if n == 'size' and len(a) == 1:
            return [(s, self.size_of(s, l)) for s, l in self.lv(a[0], st, fr)]
        if n in ('next', 'prev') and a:
            out = []
            for s, v in self.rv(a[0], st, fr):
                if n == 'prev' and v[0] == 'itend':
                    out.append((s, self.last_it(s, v[1])))
                else:
                    out.append(self.it_next(s, v, e, fr))
            return out
        if n in ('max', 'min') and len(a) == 2:
            out = []
            for s, vs in self.eval_args_v(a, st, fr):
                m = self.relq(s, vs[0], vs[1])
                if vs[0][0] == 'c' and vs[1][0] == 'c':
                    big = m == 4
                    r = vs[0] if big == (n == 'max') else vs[1]
                    out.append((s, r))
                    continue
                r = ('op', n, vs[0], vs[1]) if TOP not in vs else ('res', n, fr.id, e['nid'])
                for v in vs:
                    s2 = self.relset(s, r, v, 6 if n == 'max' else 3)
                    s = s2 if s2 is not None else s
                out.append((s, r))
            return out
        if n in ('max', 'min') and not a:
            return [(st, ('c', float('inf')) if n == 'max' else ('lim', n))]
        if n == 'swap' and len(a) == 2:
            out = []
            for s, l in self.lv(a[0], st, fr):
                for s2, m in self.lv(a[1], s, fr):
                    out.append((self.swap(s2, l, m, a[0]['t'], e, fr), ('c', 0)))
            return out
        if n in ('make_unique', 'make_shared'):
            return self.make_ptr(e, a, st, fr)
        if n in ('make_pair', 'make_tuple', 'tie'):
            loc = ('T', fr.id, e['nid'])
            out = []
            names = ('first', 'second') if n == 'make_pair' else tuple(str(i) for i in range(9))
            for s, vs in self.eval_args_v(a, st, fr):
                s = s.copy()
                self.clear_loc(s, loc)
                s.env.pop(loc, None)
                for nm, v in zip(names, vs):
                    s = self.store(s, ('F', loc, nm), v, e, fr, quiet=True)
                out.append((s, ('obj', loc)))
            return out
        if n in ('get', 'get_if', 'holds_alternative') and a:
            return self.get_call(e, n, a, st, fr)
        if n == 'visit' and len(a) == 2:
            return self.std_visit(e, a, st, fr)
        if n == 'operator-' and len(a) == 2 and T.kind(a[0]['t']) == 'it':
            out = []
            for s, vs in self.eval_args_v(a, st, fr):
                if vs[0][0] in ('it', 'itf') and vs[1][0] == 'it' and vs[1][2][0] == 'b':
                    out.append((s, ('pos', vs[0][1], vs[0][2])))
                elif vs[0][0] == 'itend' and vs[1][0] == 'it' and vs[1][2][0] == 'b':
                    out.append((s, self.size_of(s, vs[0][1])))
                else:
                    out.append((s, ('op', '-', vs[0], vs[1])))
            return out
        if n == 'operator+' and len(a) == 2 and T.kind(e['t']) == 'str':
            return [(s, ('op', '+', vs[0], vs[1]) if TOP not in vs and vs[0][0] != 'obj' and vs[1][0] != 'obj' else TOP)
                    for s, vs in self.eval_args_v(a, st, fr)]
        if n == 'to_string' and len(a) == 1:
            return [(s, ('call', 'to_string', vs)) for s, vs in self.eval_args_v(a, st, fr)]
        if n in ('exp', 'expf', 'abs', 'fabs', 'floor', 'floorf', 'ceil', 'log', 'logf', 'sqrt', 'pow') and a:
            return [(s, ('call', n, vs)) for s, vs in self.eval_args_v(a, st, fr)]
        if n == 'transform' and len(a) == 4 or n in ('copy', 'copy_if'):
            return self.copy_algo(e, n, a, st, fr)
        if n == 'back_inserter' and a:
            return [(s, ('backins', l)) for s, l in self.lv(a[0], st, fr)]
        return None

    def copy_algo(self, e, n, a, st, fr):
        out = []
        for s, vs in self.eval_args_v(a, st, fr):
            C = self.full_range(vs[0], vs[1])
            fnv = vs[3] if len(vs) > 3 else None
            if C is None or vs[2][0] != 'backins' or (fnv is not None and fnv[0] != 'fn'):
                self.imprecise.append((fr.file, e['l'], n))
                if fnv is not None and fnv[0] == 'fn':
                    for s2 in self.maybe_run(fnv, s, e, fr):
                        out.append((s2, ('res', n, fr.id, e['nid'])))
                else:
                    out.append((s, ('res', n, fr.id, e['nid'])))
                continue
            kd = self.ikind(a[0]['t'])
            D = vs[2][1]
            et = a[2]['t']
            ct = {'map': 'std::map', 'set': 'std::set', 'seq': 'std::vector'}.get(kd, 'std::vector')
            bt = T.targs(et)
            dt = bt[0] if bt else 'std::vector<int>'

            def cl(x, elem):
                R = self.elem_R(x, C, elem, kd)
                ch = {'n': [], 'r': [], 'b': [], 'c': []}
                if n == 'copy':
                    rs = [(x, R)]
                elif n == 'transform':
                    rs = self.call_closure(fnv, x, [R], e, fr)
                else:
                    rs = []
                    for x2, r in self.call_closure(fnv, x, [R], e, fr):
                        y = self.assume(x2, r, True)
                        if y is not None:
                            rs.append((y, R))
                        y = self.assume(x2, r, False)
                        if y is not None:
                            ch['n'].append(y)
                for x2, r in rs:
                    ch['n'].extend(z for z, _ in self.push(x2, D, e, fr, dt, [r]))
                return ch
            for s2 in self.visit(e, s, C, None, fr, mk='fn', closure=cl, ctype=ct)['n']:
                out.append((s2, vs[2]))
        return out

    def cmp_call(self, e, op, a, st, fr):
        kinds = [T.kind(x['t']) for x in a]
        out = []
        if 'opt' in kinds or 'nullopt' in kinds:
            i = 0 if kinds[0] == 'opt' else 1
            for s, l in self.lv(a[i], st, fr):
                for s2, v in self.rv(a[1 - i], s, fr):
                    has = self.load(s2, ('F', l, '?'))
                    if v == ('nullopt',) or kinds[1 - i] == 'nullopt':
                        out.append((s2, self.neg(has) if op == '==' else has))
                    elif v[0] == 'obj':
                        out.append((s2, ('eqo', l, v[1]) if op == '==' else ('not', ('eqo', l, v[1]))))
                    else:
                        for s3, b in self.truth(s2, has):
                            if not b:
                                out.append((s3, FALSE if op == '==' else TRUE))
                            else:
                                out.append((s3, self.cmp(s3, op, self.load(s3, ('F', l, '*')), v)))
            return out
        for s, vs in self.eval_args_v(a, st, fr):
            x, y = vs
            if x[0] == 'obj' or y[0] == 'obj':
                if x == y:
                    out.append((s, TRUE if op in ('==', '<=', '>=') else FALSE))
                else:
                    v = ('eqo', x, y) if tid(x) < tid(y) else ('eqo', y, x)
                    out.append((s, v if op == '==' else ('not', v) if op == '!=' else ('res', op, fr.id, e['nid'])))
                continue
            out.append((s, self.cmp(s, op, x, y)))
        return out

    def swap(self, st, l, m, t, e, fr):
        if T.is_obj(t):
            tmp = ('T', fr.id, (e['nid'], 'swap'))
            s = self.copy_object(st, l, tmp)
            s = self.copy_object(s, m, l)
            s = self.copy_object(s, tmp, m)
            s = s.copy()
            self.clear_loc(s, tmp)
            s.env.pop(tmp, None)
            s = self.cl.on_mut(self, s, l, 'assign', None, e, fr)
            return self.cl.on_mut(self, s, m, 'assign', None, e, fr)
        x, y = self.load(st, l), self.load(st, m)
        s = self.store(st, l, y, e, fr)
        return self.store(s, m, x, e, fr)

    def make_ptr(self, e, a, st, fr):
        ta = T.targs(e['t'])
        cls = T.strip(ta[0]) if ta else '?'
        q = T.base(cls)
        out = []
        site = (fr.id, e['nid'])
        for s, args in self.eval_any(a, st, fr):
            fl = tuple(self.flat(s, x) for x in args)
            mk = ('mk', q, site, ())
            if self.live(s, mk):
                s = self.rename(s, mk, ('o', mk))
            loc = ('D', mk)
            s = s.copy()
            s.facts[('mkargs', mk)] = fl
            done = False
            f = self.find_ctor(q, args, a)
            if f is not None:
                if f.get('implicit') or not f.get('body'):
                    if not args:
                        s = self.default_init(s, loc, cls, e, fr)
                    elif len(args) == 1 and args[0][0] in ('LOC', 'obj'):
                        s = self.copy_object(s, args[0][1], loc)
                    out.append((s, mk))
                    continue
                for s2, _ in self.call_fn(f, s, loc, list(args), e, fr):
                    out.append((s2, mk))
                continue
            if T.kind(cls) in T.CONT and not args:
                s = self.default_init(s, loc, cls, e, fr)
            elif not args and q in self.rec_by_q:
                s = self.default_init(s, loc, cls, e, fr)
            elif T.kind(cls) in T.CONT and len(args) == 1 and args[0][0] in ('LOC', 'obj'):
                s = self.copy_object(s, args[0][1], loc)
            elif T.kind(cls) not in T.OBJ and len(args) == 1:
                s = self.store(s, loc, self.rval(s, args[0], None), e, fr, quiet=True)
            elif q in self.rec_by_q and len(args) == 1 and args[0][0] in ('LOC', 'obj') and T.same(a[0]['t'], cls):
                s = self.copy_object(s, args[0][1], loc)
            out.append((s, mk))
        return out

    def find_ctor(self, q, args, exprs):
        cand = [f for f in self.p.funcs.values() if f.get('ctor') and f.get('cls') == q
                and len(f['params']) == len(args) and not f.get('implicit') and f.get('body')]
        if not cand:
            return None
        if len(cand) == 1:
            f = cand[0]
            if len(args) == 1 and T.base(f['params'][0]['t']) == q and T.base(exprs[0]['t']) != q:
                return None
            return f

        def score(f):
            n = 0
            for p, x in zip(f['params'], exprs):
                pt, xt = T.strip(p['t']), T.strip(x['t'])
                if T.same(pt, xt):
                    n += 4
                elif T.kind(pt) == T.kind(xt):
                    n += 2
                    if T.kind(pt) == 'ptr':
                        a = T.targs(pt)
                        b = T.targs(xt)
                        if a and b and T.base(a[0]) in self.p.bases(T.base(b[0])):
                            n += 1
                        elif a and b:
                            n -= 2
                elif T.base(pt) in self.p.bases(T.base(xt)):
                    n += 3
            return n
        cand.sort(key=lambda f: (-score(f), f['l']))
        return cand[0]

    def get_call(self, e, n, a, st, fr):
        t = a[0]['t']
        out = []
        if n == 'get_if':
            for s, v in self.rv(a[0], st, fr):
                l = deref(v)
                pt = T.strip(t)
                pt = pt[:-1].strip() if pt.endswith('*') else pt
                rt = T.strip(e['t'])
                rt = rt[:-1].strip() if rt.endswith('*') else rt
                i = self.var_index(pt, rt)
                c = self.cmp(s, '==', self.load(s, ('F', l, '#')), ('c', i))
                for s2, b in self.truth(s, c):
                    out.append((s2, ('p', ('F', l, '@%s' % i)) if b else NULL))
            return out
        k = T.kind(t)
        for s, l in self.lv(a[0], st, fr):
            if k == 'var':
                ta = e.get('ta') or ()
                if n == 'holds_alternative':
                    i = self.var_index(t, ta[0]) if ta else '?'
                    out.append((s, self.cmp(s, '==', self.load(s, ('F', l, '#')), ('c', i))))
                else:
                    i = self.var_index(t, e['t'])
                    out.append((s, ('LOC', ('F', l, '@%s' % i))))
            elif k == 'pair':
                ta = e.get('ta') or ()
                i = ta[0] if ta else None
                if l[0] == 'PR':
                    out.append((s, self.elem_R(s, l[1], l[2], 'set') if str(i) == '0' else ('LOC', ('E', l[1], l[2]))))
                elif i is not None:
                    nm = (('first', 'second')[int(i)] if T.base(t) == 'std::pair' else str(i))
                    out.append((s, ('LOC', ('F', l, nm))))
                else:
                    out.append((s, TOP))
            else:
                return None
        return out

    def alternatives(self, st, l, n):
        idx = self.load(st, ('F', l, '#'))
        out = []
        for i in range(n):
            s = self.assume(st, self.cmp(st, '==', idx, ('c', i)), True)
            if s is not None:
                out.append((s, i))
        return out

    def efg_visit(self, e, st, fr):
        out = []
        vt = e['a'][0]['t']
        na = len(T.targs(vt))
        for s, vl in self.lv(e['o'], st, fr):
            for s2, l in self.lv(e['a'][0], s, fr):
                for s3, i in self.alternatives(s2, l, na):
                    f = s3.env.get(('F', vl, '#f%d' % i))
                    if f is None:
                        out.append((s3, ('c', 0)))
                        continue
                    for s4, _ in self.call_closure(f, s3, [('LOC', ('F', l, '@%d' % i))], e, fr):
                        out.append((s4, ('c', 0)))
        return out

    def std_visit(self, e, a, st, fr):
        out = []
        na = len(T.targs(a[1]['t']))
        for s, f in self.rv(a[0], st, fr):
            for s2, l in self.lv(a[1], s, fr):
                if f[0] == 'fn':
                    lam, file = self.lambdas[f[1]]
                    for s3, i in self.alternatives(s2, l, na):
                        out.extend(self.call_closure(f, s3, [('LOC', ('F', l, '@%d' % i))], e, fr))
                else:
                    return None
        return out

    def par_for(self, e, st, fr):
        out = []
        for s, l in self.objs(e, st, fr):
            for s2, C in self.lv(e['a'][0], s, fr):
                s2 = self.cl.on_call(self, s2, {'q': 'EFG::strct::Pool::parallelFor', 'c': 'parallelFor', 'cls': 'EFG::strct::Pool', 'params': []},
                                     l, [('LOC', C)], e, fr)

                def cl(x, elem):
                    ch = {'n': [], 'r': [], 'b': [], 'c': []}
                    f = self.load(x, ('E', C, elem))
                    if f[0] == 'fn':
                        for y, _ in self.call_closure(f, x, [('ld', ('O', 'th_id'))], e, fr):
                            ch['n'].append(y)
                    else:
                        ch['n'].append(x)
                    return ch
                for s3 in self.visit(e, s2, C, None, fr, mk='fn', closure=cl, ctype='std::vector')['n']:
                    out.append((s3, ('c', 0)))
        return out

    # --------------------------------------------------------------- iterators
    def it_call(self, e, n, o, a, st, fr):
        kd = self.ikind(o['t'])
        out = []
        if n in ('operator*', 'operator->'):
            for s, v in self.rv(o, st, fr):
                for s2, R in self.it_deref(s, v, kd, e, fr):
                    if n == 'operator->':
                        if R[0] == 'LOC':
                            R = ('p', R[1])
                        else:
                            loc = ('T', fr.id, e['nid'])
                            s2 = s2.copy()
                            s2.env[loc] = R
                            R = ('p', loc)
                    out.append((s2, R))
            return out
        if n == 'operator++':
            for s, l in self.lv(o, st, fr):
                v = self.load(s, l)
                s2, nv = self.it_next(s, v, e, fr)
                old = self.load(s2, l)
                s3 = self.store(s2, l, nv, e, fr)
                out.append((s3, old if a else ('LOC', l)))
            return out
        if n == 'operator--':
            for s, l in self.lv(o, st, fr):
                v = self.load(s, l)
                if v[0] == 'itend':
                    nv = self.last_it(s, v[1])
                else:
                    nv = ('res', 'it', fr.id, e['nid'])
                out.append((self.store(s, l, nv, e, fr), v if a else ('LOC', l)))
            return out
        if n == 'operator=':
            for s, v in self.rv(a[0], st, fr):
                for s2, l in self.lv(o, s, fr):
                    out.append((self.store(s2, l, v, e, fr), ('LOC', l)))
            return out
        if n in ('operator+', 'operator-', 'operator+=', 'operator-='):
            for s, v in self.rv(o, st, fr):
                for s2, w in self.rv(a[0], s, fr):
                    r = ('it', v[1], ('off', n[8], v, w)) if v[0] in ('it', 'itend', 'itf') else ('res', 'it', fr.id, e['nid'])
                    if w == ('c', 0):
                        r = v
                    if n.endswith('='):
                        for s3, l in self.lv(o, s2, fr):
                            out.append((self.store(s3, l, r, e, fr), ('LOC', l)))
                    else:
                        out.append((s2, r))
            return out
        if n in ('operator==', 'operator!='):
            return self.cmp_call(e, n[8:], [o] + a, st, fr)
        return None

    def last_it(self, st, C):
        k = st.facts.get(('last', C))
        if k is not None:
            return ('it', C, k)
        return ('it', C, ('back', C, self.ver(st, C)))

    # ---------------------------------------------------------- smart pointers
    def ptr_call(self, e, n, o, a, st, fr):
        out = []
        if n in ('operator->', 'get'):
            if T.base(o['t']) == 'EFG::Cache':
                return None
            return self.rv(o, st, fr)
        if n == 'operator*':
            return [(s, ('LOC', deref(v)) if v[0] != 'fn' else v) for s, v in self.rv(o, st, fr)]
        if n == 'operator bool':
            return [(s, self.cmp(s, '!=', v, NULL)) for s, v in self.rv(o, st, fr)]
        if n == 'use_count':
            return [(s, ('res', n, fr.id, e['nid'])) for s, v in self.rv(o, st, fr)]
        if n == 'operator=':
            for s, R in self.ev(a[0], st, fr):
                if R[0] == 'LOC':
                    s, v = self.rload(s, R[1], a[0], fr)
                    if self.is_move(e, a[0]) and T.base(a[0]['t']) != '*':
                        s = self.store(s, R[1], NULL, e, fr, quiet=root(R[1])[0] in ('L', 'T'))
                else:
                    v = R
                for s2, l in self.lv(o, s, fr):
                    out.append((self.store(s2, l, v, e, fr), ('LOC', l)))
            return out
        if n == 'reset':
            args = [x for x in a if x is not None]
            for s, l in self.lv(o, st, fr):
                if args:
                    for s2, v in self.rv(args[0], s, fr):
                        out.append((self.store(s2, l, v, e, fr), ('c', 0)))
                else:
                    out.append((self.store(s, l, NULL, e, fr), ('c', 0)))
            return out
        if n == 'release':
            for s, l in self.lv(o, st, fr):
                v = self.load(s, l)
                out.append((self.store(s, l, NULL, e, fr), v))
            return out
        if n in ('operator==', 'operator!='):
            return self.cmp_call(e, n[8:], [o] + a, st, fr)
        return None

    # --------------------------------------------------------------- optionals
    def opt_call(self, e, n, ot, a, st, fr):
        out = []
        for s, l in self.objs(e, st, fr):
            has = ('F', l, '?')
            if n in ('has_value', 'operator bool'):
                s = self.cl.on_load(self, s, l, e, fr)
                out.append((s, self.load(s, has)))
            elif n in ('operator*', 'operator->', 'value', 'value_or'):
                inner = ('F', l, '*')
                for s2, b in self.truth(s, self.load(s, has)):
                    if not b:
                        if n == 'value':
                            self.throws[-1].append((s2.note((fr.file, e['l'], 'value() throws')), dict(e, file=fr.file)))
                            continue
                        if n == 'value_or':
                            out.extend(self.rv(a[0], s2, fr))
                            continue
                        s2 = self.cl.on_bad(self, s2, ('nullopt', l), e, fr)
                    out.append((s2, ('p', inner) if n == 'operator->' else ('LOC', inner)))
            elif n == 'reset':
                out.append((self.opt_assign(s, l, ('nullopt',), e, fr), ('c', 0)))
            elif n == 'emplace':
                inner = ('F', l, '*')
                ta = T.targs(ot)
                for s2, args in self.eval_any(a, s, fr):
                    s3 = s2.copy()
                    self.clear_loc(s3, l)
                    s3.env.pop(l, None)
                    s3.env[has] = TRUE
                    for s4 in self.build_at(s3, inner, ta[0] if ta else '', list(args), e, fr):
                        s4 = self.cl.on_store(self, s4, l, ('some',), e, fr)
                        out.append((s4, ('LOC', inner)))
            elif n == 'operator=':
                for s2, v in self.rv(a[0], s, fr):
                    if v[0] == 'obj' and T.kind(a[0]['t']) == 'opt':
                        s3 = self.copy_object(s2, v[1], l)
                        s3 = self.cl.on_store(self, s3, l, v, e, fr)
                    else:
                        s3 = self.opt_assign(s2, l, v, e, fr)
                    out.append((s3, ('LOC', l)))
            else:
                return None
        return out

    def var_call(self, e, n, ot, a, st, fr):
        out = []
        for s, l in self.objs(e, st, fr):
            if n == 'operator=':
                i = self.var_index(ot, a[0]['t'])
                for s2, v in self.rv(a[0], s, fr):
                    if v[0] == 'obj' and T.kind(a[0]['t']) == 'var':
                        s3 = self.copy_object(s2, v[1], l)
                    else:
                        s3 = s2.copy()
                        self.clear_loc(s3, l)
                        s3.env.pop(l, None)
                        s3.env[('F', l, '#')] = ('c', i)
                        s3 = self.store(s3, ('F', l, '@%s' % i), v, e, fr, quiet=True)
                    out.append((self.cl.on_store(self, s3, l, v, e, fr), ('LOC', l)))
            elif n == 'emplace':
                rt = T.strip(e['t'])
                i = self.var_index(ot, rt)
                for s2, args in self.eval_any(a, s, fr):
                    s3 = s2.copy()
                    self.clear_loc(s3, l)
                    s3.env.pop(l, None)
                    s3.env[('F', l, '#')] = ('c', i)
                    for s4 in self.build_at(s3, ('F', l, '@%s' % i), rt, list(args), e, fr):
                        out.append((self.cl.on_store(self, s4, l, ('some',), e, fr), ('LOC', ('F', l, '@%s' % i))))
            elif n == 'index':
                out.append((s, self.load(s, ('F', l, '#'))))
            else:
                return None
        return out

    def str_call(self, e, n, a, st, fr):
        out = []
        if n in ('c_str', 'data'):
            return self.rv(e['o'], st, fr)
        if n in ('empty', 'size', 'length'):
            for s, v in self.rv(e['o'], st, fr):
                if n == 'empty':
                    out.append((s, self.cmp(s, '==', v, ('c', ''))))
                else:
                    out.append((s, ('call', 'strlen', (v,))))
            return out
        if n == 'operator=':
            for s, v in self.rv(a[0], st, fr):
                for s2, l in self.lv(e['o'], s, fr):
                    out.append((self.store(s2, l, v, e, fr), ('LOC', l)))
            return out
        if n == 'clear':
            for s, l in self.lv(e['o'], st, fr):
                out.append((self.store(s, l, ('c', ''), e, fr), ('c', 0)))
            return out
        return None

    # -------------------------------------------------------------- containers
    def cont_call(self, e, n, ok, ot, a, st, fr):
        out = []
        r = None
        for s, C in self.objs(e, st, fr):
            if C[0] == 'PR':
                return None
            r = self.cont_one(e, n, ok, ot, a, s, C, fr)
            if r is None:
                return None
            out.extend(r)
        return out

    def pair_ret(self, st, C, k, b, e, fr):
        loc = ('T', fr.id, e['nid'])
        s = st.copy()
        self.clear_loc(s, loc)
        s.env.pop(loc, None)
        s.env[('F', loc, 'first')] = ('it', C, k)
        s.env[('F', loc, 'second')] = b
        return s, ('obj', loc)

    def cont_one(self, e, n, ok, ot, a, st, C, fr):
        out = []
        assoc = ok in ('set', 'map')
        if n in ('begin', 'cbegin'):
            return [(st, ('it', C, ('b', C, self.ver(st, C))))]
        if n in ('end', 'cend'):
            return [(st, ('itend', C))]
        if n in ('size', 'length'):
            st = self.cl.on_load(self, st, C, e, fr)
            return [(st, self.size_of(st, C))]
        if n == 'empty':
            st = self.cl.on_load(self, st, C, e, fr)
            return [(st, self.isempty(st, C))]
        if n in ('reserve', 'shrink_to_fit', 'rehash'):
            return [(s, ('c', 0)) for s, _ in self.eval_args_v(a, st, fr)]
        if n in ('find', 'count', 'contains') and assoc and len(a) == 1:
            st = self.cl.on_load(self, st, C, e, fr)
            for s, k in self.rv(a[0], st, fr):
                if k[0] == 'obj':
                    k = ('at', k[1])
                if n == 'find':
                    out.append((s, ('itf', C, k)))
                elif n == 'contains':
                    out.append((s, self.isin(s, C, k)))
                else:
                    for s2, b in self.truth(s, self.isin(s, C, k)):
                        out.append((s2, ('c', 1 if b else 0)))
            return out
        if n == 'clear':
            return [(self.clear_cont(st, C, e, fr), ('c', 0))]
        if n == 'operator=' and a:
            for s, R in self.ev(a[0], st, fr):
                src = R[1] if R[0] in ('LOC', 'obj') else None
                if src is None:
                    if ok == 'json':
                        out.append((self.store(s, C, ('jv', R), e, fr), ('LOC', C)))
                        continue
                    s = self.havoc(s, C, e, fr)
                    out.append((s, ('LOC', C)))
                    continue
                if src == C:
                    out.append((s, ('LOC', C)))
                    continue
                if src[0] not in ('L', 'T'):
                    s = self.cl.on_load(self, s, src, a[0], fr)
                s = self.kill_iters(s, C, None)
                al = ('all', C)
                if self.live(s, al):
                    s = self.forget(s, al)
                s = self.copy_object(s, src, C)
                s = self.bump(s, C, e, fr)
                if self.is_move(e, a[0]) and ok != 'json' and root(src)[0] not in ('T',):
                    s = self.clear_cont(s, src, e, fr, op='clear' if root(src)[0] not in ('L', 'T') else 'moved')
                out.append((self.cl.on_mut(self, s, C, 'assign', None, e, fr), ('LOC', C)))
            return out
        if n in ('operator[]', 'at'):
            for s, k in self.rv(a[0], st, fr):
                if ok == 'map':
                    f = self.is_in(s, C, k)
                    if f is True:
                        out.append((s, ('LOC', ('E', C, k))))
                        continue
                    if self.cl.axiom_found(self, s, C):
                        s = self.assume_in(s, C, k, True) or s
                        out.append((s, ('LOC', ('E', C, k))))
                        continue
                    y = self.assume_in(s, C, k, True)
                    if y is not None:
                        out.append((y, ('LOC', ('E', C, k))))
                    y = self.assume_in(s, C, k, False)
                    if y is not None:
                        if n == 'at':
                            self.throws[-1].append((y.note((fr.file, e['l'], 'at() throws')), dict(e, file=fr.file)))
                        else:
                            y = self.default_init(y, ('E', C, k), T.targs(ot)[1] if len(T.targs(ot)) > 1 else '', e, fr)
                            y = self.ins_key(y, C, k, e, fr)
                            out.append((y, ('LOC', ('E', C, k))))
                else:
                    if k[0] == 'obj':
                        k = ('at', k[1])
                    if ok == 'json':
                        s = self.cl.on_mut(self, s, C, 'json[]', k, e, fr)
                    out.append((s, ('LOC', ('E', C, k))))
            return out
        if n in ('front', 'back'):
            if n == 'front':
                if st.facts.get(('built', C)) and ('E', C, ('c', 0)) in st.env:
                    k = ('c', 0)
                else:
                    k = ('b', C, self.ver(st, C))
            else:
                k = st.facts.get(('last', C)) or ('back', C, self.ver(st, C))
            if self.isempty(st, C) == TRUE:
                st = self.cl.on_bad(self, st, ('end', C, None), e, fr)
            return [(st, ('LOC', ('E', C, k)))]
        if n == 'erase' and a:
            for s, vs in self.eval_args_v(a, st, fr):
                v = vs[0]
                if len(vs) == 2:
                    s = self.cl.on_mut(self, self.bump(self.kill_iters(s, C, None), C, e, fr), C, 'erase', TOP, e, fr)
                    out.append((s, ('itend', C)))
                    continue
                if v[0] in ('it', 'itf', 'itend', 'dead', 'itnone', 'res'):
                    bad = None
                    if v[0] == 'itf' and self.is_in(s, C, v[2]) is not True and v[1] == C and not self.cl.axiom_found(self, s, C):
                        bad = ('end' if self.is_in(s, C, v[2]) is False else 'unchecked', C, v[2])
                    elif v[0] == 'itend':
                        bad = ('end', C, None)
                    elif v[0] == 'dead':
                        bad = v
                    if bad:
                        s = self.cl.on_bad(self, s, bad, e, fr)
                    k = v[2] if v[0] in ('it', 'itf') else TOP
                    if assoc:
                        s2 = self.erase_key(s, C, k, e, fr)
                    else:
                        s2 = self.erase_seq(s, C, k, e, fr, linked=T.base(ot) == 'std::list')
                    nx = ('nx', (fr.id, e['nid']))
                    s2 = self.fresh(s2, nx)
                    out.append((s2, ('it', C, nx)))
                else:
                    if v[0] == 'obj':
                        v = ('at', v[1])
                    f = self.is_in(s, C, v)
                    for s2, b in self.truth(s, self.isin(s, C, v)):
                        out.append((self.erase_key(s2, C, v, e, fr) if b else s2, ('c', 1 if b else 0)))
            return out
        if assoc and n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
            if n == 'emplace_hint':
                a = a[1:]
            if n == 'insert' and len(a) == 2 and T.kind(a[0]['t']) == 'it':
                for s, vs in self.eval_args_v(a, st, fr):
                    D = self.full_range(vs[0], vs[1])
                    if D is not None:
                        s = self.fill_from(s, C, D, self.ikind(a[0]['t']), ok, e, fr)
                    else:
                        s = s.copy()
                        s.facts.pop(('built', C), None)
                        s.facts.pop(('empty', C), None)
                    s = self.bump(s, C, e, fr)
                    out.append((self.cl.on_mut(self, s, C, 'insert', TOP, e, fr), ('c', 0)))
                return out
            for s, args in self.eval_any(a, st, fr):
                if ok == 'set':
                    k = self.rval(s, args[0], None)
                    if k[0] == 'obj':
                        k = ('at', k[1])
                    vals = None
                elif len(args) == 1:
                    if args[0][0] not in ('LOC', 'obj'):
                        return None
                    pl = args[0][1]
                    k = pl[2] if pl[0] == 'PR' else self.load(s, ('F', pl, 'first'))
                    vals = [('LOC', ('E', pl[1], pl[2]) if pl[0] == 'PR' else ('F', pl, 'second'))]
                else:
                    k = self.rval(s, args[0], None)
                    if k[0] == 'obj':
                        k = ('at', k[1])
                    vals = list(args[1:])
                for s2, b in self.truth(s, self.isin(s, C, k)):
                    if b and n != 'insert_or_assign':
                        out.append(self.pair_ret(s2, C, k, FALSE, e, fr))
                        continue
                    cur = [s2]
                    if vals is not None:
                        mt = T.targs(ot)[1] if len(T.targs(ot)) > 1 else ''
                        s2 = s2.copy()
                        self.clear_loc(s2, ('E', C, k))
                        s2.env.pop(('E', C, k), None)
                        cur = self.build_at(s2, ('E', C, k), mt, vals, e, fr)
                        # moved from
                        for i, x in enumerate(a[1:]):
                            if T.kind(x['t']) == 'ptr' and T.base(x['t']) != '*' and vals[i][0] == 'LOC' and self.is_move({}, x):
                                cur = [self.store(z, vals[i][1], NULL, e, fr, quiet=True) for z in cur]
                    for s3 in cur:
                        s3 = self.ins_key(s3, C, k, e, fr)
                        if vals is not None and not T.is_obj(mt):
                            # the value added at this site
                            s3 = self.ent_value(s3, C, k, e, fr)
                        out.append(self.pair_ret(s3, C, k, FALSE if b else TRUE, e, fr))
            return out
        if n in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace'):
            if ok == 'json':
                k = ('jb', (fr.id, e['nid']))
                for s, args in self.eval_any(a, st, fr):
                    s = self.cl.on_mut(self, s, C, 'json[]', k, e, fr)
                    if args:
                        s = self.store(s, ('E', C, k), self.rval(s, args[0], None), e, fr)
                    out.append((s, ('LOC', ('E', C, k))))
                return out
            aa = a[1:] if n == 'emplace' and a and T.kind(a[0]['t']) == 'it' else a
            for s, args in self.eval_any(aa, st, fr):
                rs = self.push(s, C, e, fr, ot, list(args), 'back' if 'front' not in n else 'front')
                for i, x in enumerate(aa):
                    if T.kind(x['t']) == 'ptr' and T.base(x['t']) != '*' and args[i][0] == 'LOC' and self.is_move({}, x):
                        rs = [(self.store(z, args[i][1], NULL, e, fr, quiet=True), r) for z, r in rs]
                out.extend(rs)
            return out
        if n in ('pop_back', 'pop_front', 'pop'):
            s = self.kill_iters(st, C, st.facts.get(('last', C)) if n == 'pop_back' else None)
            s = s.copy()
            s.facts.pop(('last', C), None)
            s.facts.pop(('empty', C), None)
            s = self.bump(s, C, e, fr)
            return [(self.cl.on_mut(self, s, C, 'erase', TOP, e, fr), ('c', 0))]
        if n == 'resize' and a:
            for s, vs in self.eval_args_v(a, st, fr):
                s = self.kill_iters(s, C, None)
                if self.live(s, ('all', C)):
                    s = self.forget(s, ('all', C))
                s = s.copy()
                for f in ('built', 'empty', 'last'):
                    s.facts.pop((f, C), None)
                s = self.bump(s, C, e, fr)
                sz = self.size_of(s, C)
                if vs[0] != TOP:
                    s.facts[('rel', sz, vs[0])] = 2
                out.append((self.cl.on_mut(self, s, C, 'resize', None, e, fr), ('c', 0)))
            return out
        if n == 'insert' and ok == 'seq' and len(a) == 3:
            for s, vs in self.eval_args_v(a, st, fr):
                D = self.full_range(vs[1], vs[2])
                s = self.kill_iters(s, C, None)
                if D is not None:
                    s = self.fill_from(s, C, D, self.ikind(a[1]['t']), ok, e, fr)
                else:
                    s = s.copy()
                    s.facts.pop(('built', C), None)
                    s.facts.pop(('empty', C), None)
                s = self.bump(s, C, e, fr)
                out.append((self.cl.on_mut(self, s, C, 'insert', TOP, e, fr), ('res', 'it', fr.id, e['nid'])))
            return out
        if n == 'swap' and len(a) == 1:
            for s, l in self.lv(a[0], st, fr):
                out.append((self.swap(s, C, l, ot, e, fr), ('c', 0)))
            return out
        if n == 'data':
            return [(st, ('p', ('E', C, ('c', 0))))]
        return None

    def ent_value(self, st, C, k, e, fr):
        site = (fr.id, e['nid'])
        kq = st.facts.get(('ent', C, site))
        if kq is None or kq == k:
            return st
        v = st.env.get(('E', C, k))
        if v is None:
            return st
        st, v2 = self.qsubst(st, v, site)
        st = st.copy()
        o = st.env.get(('E', C, kq))
        st.env[('E', C, kq)] = v2 if o is None or o == v2 else TOP
        return st
