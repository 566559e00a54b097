"""Abstract interpreter over the extracted program: a dataflow analysis whose
states (terms.St) are joined at merge points; loops are solved as fixpoints over
summarised elements.  Nothing of the program is executed and no solver is used."""
import sys
import prog as P
import ctypes_ as T
from terms import *
from stdmodel import StdModel

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class Fr:
    __slots__ = ('id', 'fn', 'this', 'caps', 'path', 'stack', 'file')

    def __init__(self, id, fn, this, caps, path, stack, file):
        self.id = id
        self.fn = fn
        self.this = this
        self.caps = caps
        self.path = path
        self.stack = stack
        self.file = file


class Client:
    """hooks; each may return a new state"""
    name = ''

    def opaque(self, f):
        return False

    def on_store(self, eng, st, loc, val, node, fr):
        return st

    def on_mut(self, eng, st, C, op, key, node, fr):
        return st

    def on_load(self, eng, st, loc, node, fr):
        return st

    def on_call(self, eng, st, f, this, args, node, fr):
        """before the (inlined) call of f; may return a list of (st,R) to replace it"""
        return st

    def on_ret(self, eng, st, f, this, R, node, fr):
        return st

    def on_bad(self, eng, st, what, node, fr):
        return st

    def on_div(self, eng, st, divisor, node, fr):
        return st

    def on_loop(self, eng, st, C, node, fr):
        """complete visit of container C ended"""
        return st

    def on_iter(self, eng, st, C, elem, node, fr):
        return st

    def on_decl(self, eng, st, v, loc, fr):
        return st

    def on_frame_end(self, eng, st, fr):
        return st

    def on_iter_end(self, eng, st, C, elem, node, fr):
        """end of the visit of one element of C"""
        return st

    def copy_sym(self, eng, st, a, b):
        add = [subst(x, a, b) for x in st.cs if mentions(x, a)]
        return st.add(*add) if add else st

    def opq_call(self, eng, st, f, this, args, node, fr):
        """call of a function that is not entered; list of (st,R) or None"""
        return None

    def load(self, eng, st, loc):
        """axioms: value of a location never written"""
        return None

    def axiom_found(self, eng, st, C):
        return False

    def ext_call(self, eng, st, q, obj, args, node, fr):
        """model for a call without body; list of (st,R) or None"""
        return None


class Eng(StdModel):
    def __init__(self, prog, client, budget=400000, maxdepth=24, caps=(16, 6, 2)):
        self.p = prog
        self.caps = caps
        self.loopd = 0
        self.cl = client
        self.frames = {}
        self.throws = [[]]
        self.steps = 0
        self.budget = budget
        self.maxdepth = maxdepth
        self.inlined = set()
        self.opaque_calls = {}
        self.unknown = {}
        self.loops = set()
        self.callsites = set()
        self.imprecise = []
        self._ff = {}
        self.rec_by_q = {}
        for r in prog.records.values():
            self.rec_by_q.setdefault(r['q'], r)
            self.rec_by_q.setdefault(r['t'], r)
        self.dtor_cache = {}
        self.dtor_of = {}
        for f in prog.funcs.values():
            if f.get('dtor') and f.get('body') and not f.get('implicit'):
                self.dtor_of[f['cls']] = f

    # ------------------------------------------------------------ entry points
    def run(self, f, this=('O', 'this'), args=None, st=None):
        """analyses f from an arbitrary state. returns (exits, throws):
        exits [(st, R)], throws [(st, node)]"""
        self.steps = 0
        st = st or St()
        fr = Fr(0, None, None, {}, (), (), f['file'])
        if args is None:
            args = []
            for prm in f['params']:
                n = ('O', prm.get('n') or '_')
                if prm.get('ref'):
                    args.append(('LOC', n))
                elif T.is_obj(prm['t']):
                    args.append(('obj', n))
                else:
                    args.append(('ld', n))
        self.throws = [[]]
        self.loopd = 0
        CAP[0] = self.caps[0]
        node = {'nid': ('entry',), 'l': f['l'], 'k': 'call', 't': f['rt']}
        res = self.call_fn(f, st, this, args, node, fr, force=True)
        return res, self.merge_throws(self.throws[0])

    # ------------------------------------------------------------------ basics
    def frame_id(self, path):
        i = self.frames.get(path)
        if i is None:
            i = self.frames[path] = len(self.frames) + 1
        return i

    def has_frame(self, t, fid):
        k = (t, fid)
        r = self._ff.get(k)
        if r is not None:
            return r
        r = False
        if isinstance(t, tuple) and t:
            if t[0] in ('L', 'T') and len(t) > 1 and t[1] == fid:
                r = True
            else:
                for x in t:
                    if isinstance(x, tuple) and self.has_frame(x, fid):
                        r = True
                        break
        if len(self._ff) > 300000:
            self._ff.clear()
        self._ff[k] = r
        return r

    def kill_frame(self, st, fid, keep=None):
        s = St({}, {}, st.cs, st.tr)
        for k, v in st.env.items():
            r = root(k)
            if r[0] in ('L', 'T') and r[1] == fid:
                continue
            s.env[k] = v
        for k, v in st.facts.items():
            if self.has_frame(k, fid):
                continue
            s.facts[k] = v
        return s

    def live(self, st, sym):
        for k, v in st.env.items():
            if mentions(k, sym) or mentions(v, sym):
                return True
        for k, v in st.facts.items():
            if mentions(k, sym) or (isinstance(v, tuple) and mentions(v, sym)):
                return True
        for k in st.cs:
            if mentions(k, sym):
                return True
        return False

    def rename(self, st, a, b, weak=True):
        """a becomes b. weak: b already denotes other elements, what is known of
        b afterwards is what is known of both"""
        prior = weak and self.live(st, b)
        s = St({}, {}, st.cs, st.tr)
        moved = {}
        for k, v in st.env.items():
            k2, v2 = subst(k, a, b), subst(v, a, b)
            if k2 is not k or k2 != k:
                moved[k2] = v2
            elif weak or not mentions(k, b):
                s.env[k2] = v2
        for k, v in moved.items():
            if prior and k in s.env and s.env[k] != v:
                s.env[k] = TOP
            elif prior and k not in s.env:
                s.env[k] = TOP if v != TOP else v
                s.env[k] = v if not weak else TOP
            else:
                s.env[k] = v
        mf = {}
        for k, v in st.facts.items():
            if mentions(k, a) or (isinstance(v, tuple) and mentions(v, a)):
                mf[self.fact_norm(subst(k, a, b))] = subst(v, a, b) if isinstance(v, tuple) else v
            elif mentions(k, b):
                if not weak:
                    continue
                s.facts[k] = v
            else:
                s.facts[k] = v
        if prior:
            for k in list(s.facts):
                if mentions(k, b) and k[0] not in ('ents', 'ent') and k not in mf:
                    del s.facts[k]
            for k, v in mf.items():
                if k in s.facts:
                    if k[0] == 'rel':
                        s.facts[k] = s.facts[k] | v
                        if s.facts[k] == 7:
                            del s.facts[k]
                    elif s.facts[k] != v:
                        if k[0] == 'ents':
                            s.facts[k] = tuple(sorted(set(v) | set(s.facts[k]), key=tid))
                        else:
                            del s.facts[k]
                elif k[0] in ('ents', 'ent'):
                    s.facts[k] = v
        else:
            s.facts.update(mf)
        if not weak:
            cs = [x for x in st.cs if not mentions(x, b) or mentions(x, a)]
        else:
            cs = st.cs
        s.cs = frozenset(subst(x, a, b) for x in cs)
        return s

    def fact_norm(self, k):
        if k[0] == 'rel' and tid(k[1]) > tid(k[2]):
            # orientation depends on the terms: masks are symmetric only for =
            return ('rel', k[1], k[2])
        return k

    def forget(self, st, sym):
        """drops what is known about sym"""
        s = St({}, {}, st.cs, st.tr)
        for k, v in st.env.items():
            if mentions(k, sym):
                continue
            s.env[k] = TOP if mentions(v, sym) and v[0] != 'fn' else v
        for k, v in st.facts.items():
            if not mentions(k, sym):
                s.facts[k] = v
        s.cs = frozenset(x for x in st.cs if not mentions(x, sym))
        return s

    def fresh(self, st, sym):
        """sym is about to be (re)generated: its previous incarnation becomes old"""
        if self.live(st, sym):
            st = self.rename(st, sym, ('o', sym))
        return st

    def copy_facts(self, st, a, b, weak=False, items=True):
        """b := same knowledge as a (intersected with the previous one when weak)"""
        prior = weak and self.live(st, b)
        s = st.copy()
        new = {}
        for k, v in st.facts.items():
            if k[0] in ('ents', 'ent', 'built', 'ver'):
                continue
            if mentions(k, a):
                new[subst(k, a, b)] = subst(v, a, b) if isinstance(v, tuple) else v
        for k in list(s.facts):
            if mentions(k, b) and k[0] not in ('ents', 'ent', 'built', 'ver'):
                if prior:
                    if k not in new or (new[k] != s.facts[k] and k[0] != 'rel'):
                        del s.facts[k]
                    elif k[0] == 'rel':
                        s.facts[k] = s.facts[k] | new[k]
                        if s.facts[k] == 7:
                            del s.facts[k]
                else:
                    del s.facts[k]
        if not prior:
            s.facts.update(new)
        for k, v in st.env.items():
            if mentions(k, a) and root(k)[0] not in ('L', 'T'):
                k2 = subst(k, a, b)
                v2 = subst(v, a, b)
                if prior and s.env.get(k2) not in (None, v2):
                    s.env[k2] = TOP
                elif prior and k2 not in s.env:
                    s.env[k2] = TOP
                else:
                    s.env[k2] = v2
        return self.cl.copy_sym(self, s, a, b) if items else s

    # ------------------------------------------------------------------ memory
    def load(self, st, loc):
        env = st.env
        v = env.get(loc)
        if v is not None:
            if v[0] == 'ref':
                return self.load(st, v[1])
            return v
        # part of something stored as a whole
        if loc[0] in ('F', 'E'):
            b = loc[1]
            chain = [loc]
            while True:
                w = env.get(b)
                if w is not None and w[0] != 'ref':
                    return self.project(st, w, b, loc)
                if b[0] in ('F', 'E'):
                    b = b[1]
                else:
                    break
        if loc[0] == 'F' and loc[1][0] == 'PR' and loc[2] == 'first':
            return loc[1][2]
        v = self.cl.load(self, st, loc)
        if v is not None:
            return v
        if depth(loc) > 40:
            return TOP
        return ('ld', loc)

    def project(self, st, w, b, loc):
        if w == TOP:
            return TOP
        if w[0] == 'cpy':
            return ('ld', rebase(loc, b, w[1]))
        if w[0] == 'h':
            return ('ld', rebase(loc, b, ('D', w)))
        if w[0] == 'zero':
            return ('c', 0)
        return ('ld', rebase(loc, b, ('D', w)))

    def clear_loc(self, s, loc):
        """forgets what is stored at (and under) loc, in place"""
        for k in list(s.env):
            if k != loc and is_prefix(loc, k):
                del s.env[k]
        for k in list(s.facts):
            if k[0] in ('in', 'empty', 'built', 'ver', 'ents', 'ent', 'isend', 'idx', 'last') and is_prefix(loc, k[1]):
                del s.facts[k]

    def store(self, st, loc, val, node, fr, quiet=False):
        if depth(val) > 40:
            val = TOP
        s = st.copy()
        if val[0] == 'obj':
            s = self.copy_object(s, val[1], loc)
        else:
            self.clear_loc(s, loc)
            s.env[loc] = val
        if not quiet:
            s = self.cl.on_store(self, s, loc, val, node, fr)
        return s

    def copy_object(self, st, src, dst):
        if src == dst:
            return st
        if src[0] == 'PR':
            s = st.copy()
            self.clear_loc(s, dst)
            s.env.pop(dst, None)
            s.env[('F', dst, 'first')] = src[2]
            return self.copy_object(s, ('E', src[1], src[2]), ('F', dst, 'second'))
        s = st.copy()
        new = {}
        nf = {}
        whole = None
        for k, v in st.env.items():
            if is_prefix(src, k):
                if v[0] == 'ref':
                    continue
                new[rebase(k, src, dst)] = v
        for k, v in st.facts.items():
            if k[0] in ('in', 'empty', 'built', 'ver', 'ents', 'ent', 'isend', 'idx', 'last') and is_prefix(src, k[1]):
                if isinstance(v, tuple) and v and v[0] == 'obj' and is_prefix(src, v[1]):
                    v = ('obj', rebase(v[1], src, dst))
                nf[(k[0], rebase(k[1], src, dst)) + k[2:]] = v
        if src not in st.env:
            # the parts without a known value are those src initially had
            b = src
            while b[0] in ('F', 'E') and b not in st.env:
                b = b[1]
            w = st.env.get(b)
            if w is None or w[0] == 'ref':
                whole = ('cpy', src) if root(src)[0] not in ('L', 'T') else None
            elif w[0] == 'cpy':
                whole = ('cpy', rebase(src, b, w[1]))
            else:
                whole = TOP
        self.clear_loc(s, dst)
        s.env.pop(dst, None)
        if whole:
            s.env[dst] = whole
        s.env.update(new)
        s.facts.update(nf)
        # what holds of all the elements of the source
        a, b = ('all', src), ('all', dst)
        if self.live(st, a):
            s = self.copy_facts(s, a, b)
        return s

    def havoc(self, st, loc, node, fr, tag='h'):
        sym = (tag, fr.id, node['nid'])
        s = st.copy()
        self.clear_loc(s, loc)
        s.env[loc] = (tag, fr.id, node['nid'], loc)
        return self.cl.on_store(self, s, loc, s.env[loc], node, fr)

    # --------------------------------------------------------------- relations
    def const(self, st, v):
        return v[1] if v[0] == 'c' else None

    def nonneg(self, v):
        return v[0] in ('sz', 'lv') or (v[0] == 'op' and v[1] in ('+', '*', '/', '%') and
                                        self.nonneg_t(v[2]) and self.nonneg_t(v[3]))

    def nonneg_t(self, v):
        return self.nonneg(v) or (v[0] == 'c' and isinstance(v[1], (int, float)) and v[1] >= 0)

    def relq(self, st, a, b):
        """possible orderings of a,b: bits 1 <, 2 =, 4 >"""
        if a == b and a != TOP:
            return 2
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            if x == y and (x is None) == (y is None):
                return 2
            try:
                if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                    return 5
                return 1 if x < y else 4
            except TypeError:
                return 5
        if a == TOP or b == TOP:
            return 7
        nn = ('p', 'mk', 'fn')
        if (a == NULL and b[0] in nn) or (b == NULL and a[0] in nn):
            return 5
        if a[0] == 'p' and b[0] == 'p':
            ra, rb = root(a[1]), root(b[1])
            if ra[0] in ('L', 'T', 'N') and rb[0] in ('L', 'T', 'N', 'O') and ra != rb:
                return 5
        if a[0] == 'mk' and b[0] == 'mk':
            return 5
        if a[0] == 'mk' and b[0] == 'ld' or b[0] == 'mk' and a[0] == 'ld':
            return 5
        m = self.relget(st, a, b)
        # through constants
        if b[0] == 'c' and isinstance(b[1], (int, float)) and not isinstance(b[1], bool):
            if self.nonneg(a):
                if b[1] == 0:
                    m &= 6
                elif b[1] < 0:
                    m &= 4
            for k, v in st.facts.items():
                if k[0] == 'rel':
                    if k[1] == a and k[2][0] == 'c':
                        o, w = k[2][1], v
                    elif k[2] == a and k[1][0] == 'c':
                        o, w = k[1][1], self.flip(v)
                    else:
                        continue
                    if o is None or isinstance(o, (str, bool)):
                        continue
                    if not (w & 4) and o < b[1]:
                        m &= 1
                    elif not (w & 1) and o > b[1]:
                        m &= 4
                    elif w == 2 and o != b[1]:
                        m &= 5
        elif a[0] == 'c' and isinstance(a[1], (int, float)) and not isinstance(a[1], bool):
            return self.flip(self.relq(st, b, a))
        return m

    def flip(self, m):
        return ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2)

    def relget(self, st, a, b):
        m = st.facts.get(('rel', a, b))
        n = st.facts.get(('rel', b, a))
        r = 7
        if m is not None:
            r &= m
        if n is not None:
            r &= self.flip(n)
        return r

    def relset(self, st, a, b, mask):
        m = self.relq(st, a, b) & mask
        if m == 0:
            return None
        if a[0] == 'c' and b[0] == 'c':
            return st
        if a == TOP or b == TOP:
            return st
        s = st.copy()
        s.facts.pop(('rel', b, a), None)
        s.facts[('rel', a, b)] = m
        return s

    MASK = {'==': 2, '!=': 5, '<': 1, '<=': 3, '>': 4, '>=': 6}

    def cmp(self, st, op, a, b):
        """value of the comparison"""
        r = self.it_cmp(st, a, b)
        if r is not None:
            if op == '==':
                return r
            if op == '!=':
                return self.neg(r)
        m = self.relq(st, a, b)
        k = self.MASK[op]
        if m & ~k == 0:
            return TRUE
        if m & k == 0:
            return FALSE
        return ('cmp', op, a, b)

    def neg(self, v):
        if v == TRUE:
            return FALSE
        if v == FALSE:
            return TRUE
        if v[0] == 'not':
            return v[1]
        if v[0] == 'cmp':
            return ('cmp', {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[v[1]], v[2], v[3])
        return ('not', v)

    def assume(self, st, v, b):
        """st restricted to v being b, None when impossible"""
        if v[0] == 'c':
            return st if bool(v[1]) == b else None
        if v[0] == 'not':
            return self.assume(st, v[1], not b)
        if v[0] == 'cmp':
            op = v[1]
            r = self.it_cmp(st, v[2], v[3])
            if r is not None and op in ('==', '!='):
                return self.assume(st, r if op == '==' else self.neg(r), b)
            m = self.MASK[op]
            if not b:
                m = 7 & ~m
            s = self.relset(st, v[2], v[3], m)
            if s is not None:
                s = self.link(s, v[2], v[3])
            return s
        if v[0] == 'isin':
            return self.assume_in(st, v[1], v[2], b)
        if v[0] == 'isempty':
            return self.assume_empty(st, v[1], b)
        if v[0] in ('p', 'mk', 'fn'):
            return st if b else None
        if v == TOP:
            return st
        f = st.facts.get(('b', v))
        if f is not None:
            return st if f == b else None
        s = st.copy()
        s.facts[('b', v)] = b
        return s

    def truth(self, st, v):
        """[(st,bool)]"""
        out = []
        for b in (True, False):
            s = self.assume(st, v, b)
            if s is not None:
                out.append((s, b))
        return out

    def link(self, st, a, b):
        """size facts imply emptiness facts"""
        for x, y in ((a, b), (b, a)):
            if x[0] == 'sz' and y[0] == 'c' and isinstance(y[1], int):
                m = self.relq(st, x, ('c', 0))
                if m == 2:
                    return self.assume_empty(st, x[1], True) or st
                if not m & 2:
                    return self.assume_empty(st, x[1], False) or st
        return st

    # -------------------------------------------------------------- statements
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    def block(self, stmts, sts, fr):
        """[st] -> channels"""
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        cur = sts
        guards = []  # (loc, cls) objects with a destructor declared here
        pushed = 0
        for s in stmts:
            if s is None:
                continue
            if not cur:
                break
            if s.get('k') == 'decl':
                gl = [(self.local(fr, v['d']), self.dtor_class(v['t'])) for v in s['v']
                      if not v.get('ref') and not v.get('static') and self.dtor_class(v['t'])]
            else:
                gl = []
            nxt = []
            for st in cur:
                ch = self.stmt(s, st, fr)
                nxt.extend(ch['n'])
                for k in ('r', 'b', 'c'):
                    for x in ch[k]:
                        if guards:
                            y = x[0] if k == 'r' else x
                            for z in self.run_dtors(guards, y, fr, s):
                                out[k].append((z, x[1]) if k == 'r' else z)
                        else:
                            out[k].append(x)
            cur = dedupe(nxt)
            for g in gl:
                guards.append(g)
                self.throws.append([])
                pushed += 1
        while pushed:
            th = self.merge_throws(self.throws.pop())
            pushed -= 1
            g = guards[pushed]
            for st, n in th:
                for z in self.run_dtors([g], st, fr, n):
                    self.throws[-1].append((z, n))
        if guards:
            nx = []
            for st in cur:
                nx.extend(self.run_dtors(guards, st, fr, stmts[-1]))
            cur = nx
        out['n'] = cur
        return out

    def dtor_class(self, t):
        t = T.strip(t)
        if t.endswith('*'):
            return None
        q = T.base(t)
        r = self.dtor_cache.get(t)
        if r is None:
            r = self._has_dtor(q, set()) or ''
            self.dtor_cache[t] = r
        return r or None

    def _has_dtor(self, q, seen):
        if q in seen:
            return None
        seen.add(q)
        if q in self.dtor_of:
            return q
        rec = self.rec_by_q.get(q)
        if rec:
            for f in rec['f']:
                if T.kind(f['t']) == 'rec' and not T.is_ref(f['t']) and not f.get('ref') and self._has_dtor(T.base(f['t']), seen):
                    return q
        return None

    def run_dtors(self, guards, st, fr, node):
        cur = [st]
        for loc, q in reversed(guards):
            nxt = []
            for s in cur:
                nxt.extend(self.run_dtor(loc, q, s, fr, node))
            cur = nxt
        return cur

    def run_dtor(self, loc, q, st, fr, node):
        cur = [st]
        f = self.dtor_of.get(q)
        if f:
            nn = dict(node)
            nn['nid'] = (node['nid'], 'dtor', loc[2] if len(loc) > 2 else 0)
            cur = [s for s, _ in self.call_fn(f, st, loc, [], nn, fr)]
        rec = self.rec_by_q.get(q)
        if rec:
            for fl in reversed(rec['f']):
                if T.kind(fl['t']) == 'rec' and not fl.get('ref') and self.dtor_class(fl['t']):
                    nxt = []
                    for s in cur:
                        nxt.extend(self.run_dtor(('F', loc, fl['n']), self.dtor_class(fl['t']), s, fr, node))
                    cur = nxt
        return cur

    def stmt(self, s, st, fr):
        self.tick()
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        k = s['k']
        if k == 'block':
            return self.block(s['s'], [st], fr)
        if k == 'expr':
            out['n'] = dedupe([x for x, _ in self.ev(s['e'], st, fr)])
            return out
        if k == 'decl':
            cur = [st]
            for v in s['v']:
                nxt = []
                for x in cur:
                    nxt.extend(self.declare(v, x, fr))
                cur = nxt
            out['n'] = dedupe(cur)
            return out
        if k == 'ret':
            if s.get('e') is None:
                out['r'] = [(st, ('c', 0))]
                return out
            if T.is_ref(fr.fn['rt']):
                res = [(x, ('LOC', l)) for x, l in self.lv(s['e'], st, fr)]
            else:
                res = self.rv(s['e'], st, fr)
            out['r'] = res
            return out
        if k == 'if':
            return self.if_(s, st, fr)
        if k in ('for', 'while', 'do'):
            return self.loop(s, st, fr)
        if k == 'rfor':
            return self.rfor(s, st, fr)
        if k == 'break':
            out['b'] = [st]
            return out
        if k == 'continue':
            out['c'] = [st]
            return out
        if k == 'null':
            out['n'] = [st]
            return out
        if k == 'switch':
            return self.switch(s, st, fr)
        if k == 'try':
            self.throws.append([])
            ch = self.stmt(s['s'], st, fr)
            th = self.merge_throws(self.throws.pop())
            for x, n in th:
                handled = False
                for h in s['h']:
                    hv = h.get('v')
                    y = x.note((fr.file, s['l'], 'caught'))
                    if hv and hv.get('d') is not None:
                        y = y.copy()
                        y.env[self.local(fr, hv['d'])] = ('exc', fr.id)
                    c2 = self.stmt(h['s'], y, fr)
                    for kk in ch:
                        ch[kk] = ch[kk] + c2[kk]
                    handled = True
                    break
                if not handled:
                    self.throws[-1].append((x, n))
            ch['n'] = dedupe(ch['n'])
            return ch
        out['n'] = [st]
        return out

    def merge_throws(self, th):
        by, order = {}, []
        for st, n in th:
            k = (n.get('nid'), n.get('file'))
            if k not in by:
                by[k] = (n, [])
                order.append(k)
            by[k][1].append(st)
        return [(st, by[k][0]) for k in order for st in cap(dedupe(by[k][1]), 6)]

    def local(self, fr, d):
        if d in fr.caps:
            return fr.caps[d]
        return ('L', fr.id, d)

    def declare(self, v, st, fr):
        loc = ('L', fr.id, v['d'])
        init = v.get('init')
        # a new incarnation of the variable
        if loc in st.env or any(is_prefix(loc, k) for k in st.env):
            st = st.copy()
            self.clear_loc(st, loc)
            st.env.pop(loc, None)
        if T.kind(v['t']) in T.CONT:
            a = ('all', loc)
            if self.live(st, a):
                st = self.forget(st, a)
            st = st.copy()
            self.clear_loc(st, loc)
        out = []
        if v.get('bind'):
            if v.get('ref') or True:
                res = self.lv(init, st, fr) if v.get('ref') else []
                if not v.get('ref'):
                    for x, val in self.rv(init, st, fr):
                        x = self.store(x, loc, val, v_node(v, init), fr, quiet=True)
                        res.append((x, loc))
            for x, l in res:
                out.append(self.bind(x, l, v, fr))
            return out
        if v.get('ref'):
            for x, l in self.lv(init, st, fr):
                x = x.copy()
                x.env[loc] = ('ref', l)
                out.append(x)
            return out
        if init is None:
            st = st.copy()
            if T.kind(v['t']) in T.CONT:
                st.facts[('built', loc)] = True
                st.facts[('empty', loc)] = True
            elif T.kind(v['t']) == 'opt':
                st.env[('F', loc, '?')] = FALSE
            elif not T.is_obj(v['t']):
                st.env[loc] = ('undef', fr.id, v['d'])
            return [st]
        for x, val in self.rv_into(init, x_loc=loc, st=st, fr=fr, t=v['t']):
            x = self.cl.on_decl(self, x, v, loc, fr)
            out.append(x)
        return out

    def bind(self, st, l, v, fr):
        st = st.copy()
        for i, b in enumerate(v['bind']):
            bl = ('L', fr.id, b['d'])
            if l[0] == 'PR':
                if i == 0:
                    st.env[bl] = l[2]
                else:
                    st.env[bl] = ('ref', ('E', l[1], l[2]))
                continue
            f = b.get('f')
            if f is None:
                tt = T.base(v['t'])
                f = ('first', 'second')[i] if tt == 'std::pair' else str(i)
            st.env[bl] = ('ref', ('F', l, f))
        return st

    def rv_into(self, e, x_loc, st, fr, t):
        """evaluates e as initialiser of the object at x_loc"""
        out = []
        if e['k'] == 'ctor' and e.get('cm') is None and T.kind(t) == 'rec':
            for s, _ in self.construct(e, st, fr, x_loc):
                out.append((s, ('obj', x_loc)))
            return out
        for s, v in self.rv(e, st, fr):
            if T.kind(t) == 'opt' and not (v[0] == 'obj' and T.kind(e['t']) == 'opt'):
                s = self.opt_assign(s, x_loc, v, e, fr)
            else:
                s = self.store(s, x_loc, v, e, fr, quiet=True)
            out.append((s, v))
        return out

    def cond(self, e, st, fr):
        """[(st,bool)]"""
        if e is None:
            return [(st, True)]
        k = e['k']
        if k == 'un' and e['op'] == '!':
            return [(s, not b) for s, b in self.cond(e['e'], st, fr)]
        if k == 'bin' and e['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(e['a'], st, fr):
                if b == (e['op'] == '||'):
                    out.append((s, b))
                else:
                    out.extend(self.cond(e['b'], s, fr))
            return out
        out = []
        for s, v in self.rv(e, st, fr):
            if T.kind(e['t']) == 'ptr' or (v[0] in ('ld', 'p', 'mk') and T.kind(e['t']) == 'ptr'):
                v = self.cmp(s, '!=', v, NULL)
            elif T.kind(e['t']) == 'num' and strip_bool(e['t']) != 'bool' and v[0] not in ('cmp', 'not', 'isin', 'isempty'):
                v = self.cmp(s, '!=', v, ('c', 0)) if not (v[0] == 'c' and isinstance(v[1], bool)) else v
            out.extend(self.truth(s, v))
        return out

    def if_(self, s, st, fr):
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        cur = [st]
        if s.get('i'):
            ch = self.stmt(s['i'], st, fr)
            cur = ch['n']
        if s.get('cv'):
            nxt = []
            for x in cur:
                nxt.extend(self.stmt(s['cv'], x, fr)['n'])
            cur = nxt
        if s.get('cx'):
            br = [(x, bool(s.get('cxv'))) for x in cur]
        else:
            br = []
            for x in cur:
                br.extend(self.cond(s['c'], x, fr))
            br = dedupe_pairs(br)
        for x, b in br:
            t = s['a'] if b else s.get('b')
            x = x.note((fr.file, s['l'], 'then' if b else 'else'))
            if t is None:
                out['n'].append(x)
                continue
            ch = self.stmt(t, x, fr)
            for k in out:
                out[k].extend(ch[k])
        out['n'] = dedupe(out['n'])
        return out

    def switch(self, s, st, fr):
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        cur = [st]
        if s.get('i'):
            cur = self.stmt(s['i'], st, fr)['n']
        if s.get('cv'):
            nxt = []
            for x in cur:
                nxt.extend(self.stmt(s['cv'], x, fr)['n'])
            cur = nxt
        items = s['s']
        for x0 in cur:
            for x, v in self.rv(s['c'], x0, fr):
                starts = []
                rest = x
                default = None
                for i, it in enumerate(items):
                    if it.get('k') == 'case':
                        if rest is None:
                            continue
                        c = ('c', it.get('v'))
                        y = self.relset(rest, v, c, 2)
                        if y is not None:
                            y = self.link(y, v, c)
                            starts.append((i, y.note((fr.file, it.get('l', s['l']), 'case'))))
                        rest = self.relset(rest, v, c, 5)
                    elif it.get('k') == 'default':
                        default = i
                if rest is not None:
                    starts.append((default, rest))
                for i, y in starts:
                    if i is None:
                        out['n'].append(y)
                        continue
                    body = [z for z in items[i:] if z.get('k') not in ('case', 'default')]
                    ch = self.block(body, [y], fr)
                    out['n'].extend(ch['n'])
                    out['n'].extend(ch['b'])
                    out['r'].extend(ch['r'])
                    out['c'].extend(ch['c'])
        out['n'] = dedupe(out['n'])
        return out

    # ------------------------------------------------------------------- loops
    def stepped(self, nodes, fr):
        """locals incremented/decremented or op-assigned inside"""
        ds = set()

        def v(n):
            tgt = None
            if n.get('k') == 'un' and n.get('op') in ('++', '--', 'post++', 'post--'):
                tgt = n['e']
            elif n.get('k') == 'asg' and n.get('op') != '=':
                tgt = n['a']
            if tgt and tgt.get('k') == 'ref' and tgt.get('dk') == 'local':
                ds.add((tgt['d'], T.kind(tgt['t'])))
            if tgt and tgt.get('k') == 'ref' and tgt.get('dk') == 'bind':
                ds.add((tgt['d'], T.kind(tgt['t'])))
        P.walk([x for x in nodes if x], v)
        return ds

    def nest(self, d):
        self.loopd += d
        CAP[0] = self.caps[min(self.loopd, len(self.caps) - 1)]

    def loop(self, s, st, fr):
        self.nest(1)
        try:
            return self.loop_(s, st, fr)
        finally:
            self.nest(-1)

    def loop_(self, s, st, fr):
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        lid = (fr.id, s['nid'])
        self.loops.add(s['nid'])
        cur = [st]
        if s['k'] == 'for' and s.get('i'):
            ii = s['i']
            cur = self.stmt(ii, st, fr)['n'] if ii['k'] in ('decl', 'expr', 'null', 'block') else [x for x, _ in self.ev(ii, st, fr)]
        rng = self.as_range(s, cur, fr)
        if rng is not None:
            return rng
        st_vars = self.stepped([s.get('c'), s.get('n'), s['s']], fr)

        def havoc(x, first):
            x = x.copy()
            for d, kd in sorted(st_vars):
                loc = self.local(fr, d)
                w = x.env.get(loc)
                if w is not None and w[0] == 'ref':
                    loc = w[1]
                    w = self.load(x, loc)
                if w is None and root(loc)[0] in ('L', 'T') and root(loc)[1] == fr.id:
                    continue
                if kd != 'num':
                    continue
                sym = ('lv', lid, d)
                if first:
                    init = w or self.load(x, loc)
                    if init == sym:
                        continue
                if self.live(x, sym):
                    x = self.forget(x, sym)
                x.env[loc] = sym
            return x
        heads = StateSet()
        work = [havoc(x, True) for x in cur]
        do = s['k'] == 'do'
        first_do = do
        n = 0
        exits = []
        rnd = []
        while work or rnd:
            if not rnd:
                # next round: the new states, joined more and more eagerly
                n += 1
                lim = min(CAP[0], 4 if n < 3 else 2 if n < 5 else 1)
                work = cap(dedupe(work), lim)
                for x in work:
                    y = heads.wide(x, lim)
                    if y is not None:
                        rnd.append(y)
                work = []
                if n > 25:
                    self.imprecise.append((fr.file, s['l'], 'loop'))
                    break
                if not rnd:
                    break
            y = rnd.pop(0)
            self.tick()
            if do:
                ch = self.stmt(s['s'], y, fr)
                for k in ('r',):
                    out[k].extend(ch[k])
                exits.extend(ch['b'])
                for z in dedupe(ch['n'] + ch['c']):
                    for w, b in self.cond(s['c'], z, fr):
                        if b:
                            work.append(havoc(w, False))
                        else:
                            exits.append(w)
                continue
            pre = [y]
            if s.get('cv'):
                pre = self.stmt(s['cv'], y, fr)['n']
            for p in pre:
                for w, b in self.cond(s.get('c'), p, fr):
                    if not b:
                        exits.append(w.note((fr.file, s['l'], 'loop left')))
                        continue
                    ch = self.stmt(s['s'], w, fr)
                    out['r'].extend(ch['r'])
                    exits.extend(ch['b'])
                    nx = dedupe(ch['n'] + ch['c'])
                    if s['k'] == 'for' and s.get('n'):
                        nx2 = []
                        for z in nx:
                            nx2.extend(a for a, _ in self.ev(s['n'], z, fr))
                        nx = nx2
                    work.extend(havoc(z, False) for z in nx)
        out['n'] = dedupe(exits)
        return out

    def as_range(self, s, cur, fr):
        """for(it=C.begin(); it!=C.end(); ++it) and for(k=0; k<C.size(); ++k)
        are complete visits of C, as long as the variable is only stepped there"""
        if s['k'] != 'for' or not s.get('c') or not s.get('n') or not s.get('i') or not cur:
            return None
        n = s['n']
        if n['k'] == 'un' and n['op'] in ('++', 'post++'):
            tgt = n['e']
        elif n['k'] == 'call' and n.get('op') == '++':
            tgt = n.get('o') or (n['a'][0] if n.get('a') else None)
        else:
            return None
        if not tgt or tgt.get('k') != 'ref' or tgt.get('dk') != 'local':
            return None
        d = tgt['d']
        bad = []

        def v(x):
            t = None
            if x.get('k') == 'un' and x.get('op') in ('++', '--', 'post++', 'post--', '&'):
                t = x['e']
            elif x.get('k') == 'asg':
                t = x['a']
            elif x.get('k') == 'call' and x.get('op') in ('++', '--', '=', '+=', '-='):
                t = x.get('o')
            elif x.get('k') == 'call' and x.get('pk'):
                for a, p in zip(x.get('a') or [], x['pk']):
                    if p == 'r' and a and a.get('k') == 'ref' and a.get('d') == d and '::operator' not in (x.get('q') or ''):
                        bad.append(1)
            elif x.get('k') == 'lambda':
                for c in x.get('caps') or []:
                    if c.get('d') == d and c.get('ref'):
                        pass
            if t is not None and t.get('k') == 'ref' and t.get('d') == d:
                bad.append(1)
        P.walk(s['s'], v)
        if bad:
            return None
        c = s['c']
        conj = None
        if c['k'] == 'bin' and c['op'] == '&&':
            conj = c['b']
            c = c['a']
            return None
        loc = self.local(fr, d)
        out = None
        res = []
        for st in cur:
            v0 = st.env.get(loc)
            if v0 is None:
                return None
            C = None
            if v0[0] == 'it' and v0[2][0] == 'b':
                ops = None
                if c['k'] == 'call' and c.get('op') == '!=':
                    ops = ([c['o']] if c.get('o') else []) + c['a']
                elif c['k'] == 'bin' and c['op'] == '!=':
                    ops = [c['a'], c['b']]
                if not ops or len(ops) != 2:
                    return None
                other = [o for o in ops if not (o.get('k') == 'ref' and o.get('d') == d)]
                if len(other) != 1:
                    return None
                r = self.rv(other[0], st, fr)
                if len(r) != 1 or r[0][1] != ('itend', v0[1]):
                    return None
                C = v0[1]
                mk = 'it'
            elif v0 == ('c', 0):
                if c['k'] != 'bin' or c['op'] not in ('<', '!='):
                    return None
                if not (c['a'].get('k') == 'ref' and c['a'].get('d') == d):
                    return None
                r = self.rv(c['b'], st, fr)
                if len(r) != 1 or r[0][1][0] != 'sz':
                    return None
                C = r[0][1][1]
                mk = 'idx'
            else:
                return None
            res.append((st, C, mk))
        for st, C, mk in res:
            ch = self.visit(s, st, C, None, fr, mk=mk, var=loc, body=s['s'])
            if out is None:
                out = ch
            else:
                for k in out:
                    out[k].extend(ch[k])
        out['n'] = dedupe(out['n'])
        return out

    def rfor(self, s, st, fr):
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        self.loops.add(s['nid'])
        cur = [st]
        if s.get('i'):
            cur = self.stmt(s['i'], st, fr)['n']
        for x0 in cur:
            for x, C in self.lv(s['r'], x0, fr):
                ch = self.visit(s, x, C, s['v'], fr, mk='rfor', body=s['s'])
                for k in out:
                    out[k].extend(ch[k])
        out['n'] = dedupe(out['n'])
        return out

    def kinds(self, st, C):
        """what a visit of C meets: [('base',)] and the elements added"""
        ks = []
        if not st.facts.get(('built', C)):
            ks.append(('base',))
        for q in st.facts.get(('ents', C), ()):
            ks.append(('ent', q))
        return ks

    def visit(self, *a, **k):
        self.nest(1)
        try:
            return self.visit_(*a, **k)
        finally:
            self.nest(-1)

    def visit_(self, s, st, C, v, fr, mk='rfor', var=None, body=None, closure=None, ctype=None, stop=None):
        """fixpoint of a complete visit of container C"""
        lid = (fr.id, s['nid'])
        out = {'n': [], 'r': [], 'b': [], 'c': []}
        g = ('g', lid)
        if ctype is None:
            ctype = s['r']['t'] if mk == 'rfor' else ''
        if st.facts.get(('empty', C)) is True:
            out['n'] = [st]
            return out
        st_vars = [x for x in self.stepped([body], fr)] if body else []
        entry_kinds = self.kinds(st, C)
        ver0 = st.facts.get(('ver', C))

        def head(x, first):
            x = x.copy()
            for d, kd in sorted(st_vars):
                loc = self.local(fr, d)
                w = x.env.get(loc)
                if w is not None and w[0] == 'ref':
                    loc = w[1]
                    w = self.load(x, loc)
                if w is None and root(loc)[0] in ('L', 'T') and root(loc)[1] == fr.id:
                    continue
                if kd != 'num':
                    continue
                sym = ('lv', lid, d)
                if self.live(x, sym):
                    x = self.forget(x, sym)
                    x = x.copy()
                x.env[loc] = sym
            return x
        heads = StateSet()
        work = []
        exits = []
        done = []
        n = 0
        entry = head(st, True)
        rnd = [entry]
        while work or rnd:
            if not rnd:
                # next round: the new states, joined more and more eagerly
                n += 1
                lim = min(CAP[0], 4 if n < 3 else 2 if n < 5 else 1)
                work = cap(dedupe(work), lim)
                for x in work:
                    y = heads.wide(x, lim)
                    if y is not None:
                        rnd.append(y)
                work = []
                if n > 25:
                    self.imprecise.append((fr.file, s['l'], 'loop'))
                    break
                if not rnd:
                    break
            y = rnd.pop(0)
            self.tick()
            done_key = y.key()
            for kd in entry_kinds:
                z, elem, syms = self.pick(y, C, kd, g, lid, mk, ctype)
                if z is None:
                    continue
                z = self.cl.on_iter(self, z, C, elem, s, fr)
                for w in self.bind_elem(z, C, elem, v, var, mk, ctype, fr, s):
                    if closure is not None:
                        ch = closure(w, elem)
                    else:
                        ch = self.stmt(body, w, fr)
                    out['r'].extend(ch['r'])
                    exits.extend(ch['b'])
                    for u in dedupe(ch['n'] + ch['c']):
                        if u.facts.get(('ver', C)) != ver0 and mk == 'rfor':
                            u = self.cl.on_bad(self, u, ('iterated container modified', C), s, fr)
                        u = self.cl.on_iter_end(self, u, C, elem, s, fr)
                        # the element just visited joins the visited ones
                        for sy in syms:
                            if self.live(u, sy):
                                u = self.rename(u, sy, ('o', sy))
                        if v is not None:
                            u = self.undeclare(u, v, fr)
                        work.append(head(u, False))
        done.append(self.visited(entry, C, entry_kinds, g, lid, s, fr, zero=True))
        for y in heads.states():
            done.append(self.visited(y, C, entry_kinds, g, lid, s, fr))
        res = []
        for x in done:
            if x is not None:
                res.append(x.note((fr.file, s['l'], 'loop ended')))
        for x in exits:
            # left before the end
            res.append(x)
        out['n'] = dedupe(res)
        return out

    def undeclare(self, st, v, fr):
        st = st.copy()
        for d in [v['d']] + [b['d'] for b in v.get('bind') or []]:
            loc = ('L', fr.id, d)
            self.clear_loc(st, loc)
            st.env.pop(loc, None)
        return st

    def pick(self, st, C, kd, g, lid, mk, ctype):
        """an element of the given kind: (state, element, symbols)"""
        if kd[0] == 'base':
            if self.live(st, g):
                st = self.rename(st, g, ('o', g))
            a = ('all', C)
            if self.live(st, a):
                st = self.copy_facts(st, a, g)
            st = st.copy()
            st.facts[('in', C, g)] = True
            st.facts[('empty', C)] = False
            return st, g, [g]
        val = st.facts.get(('ent', C, kd[1]))
        if val is None:
            return None, None, None
        qs = []
        find_syms(val, ('q',), qs)
        syms = []
        for q in qs:
            m = ('m', lid, q)
            if self.live(st, m):
                st = self.rename(st, m, ('o', m))
            st = self.copy_facts(st, q, m)
            val = subst(val, q, m)
            syms.append(m)
        st = st.copy()
        k = T.kind(ctype) if ctype else 'seq'
        if k in ('set', 'map') or mk == 'it' and False:
            key = val
        else:
            key = ('k', lid, kd[1])
            if val[0] == 'obj':
                st = self.copy_object(st, val[1], ('E', C, key))
            else:
                st.env[('E', C, key)] = val
            syms = syms + [key]
        st.facts[('in', C, key)] = True
        st.facts[('empty', C)] = False
        return st, key, syms

    def bind_elem(self, st, C, elem, v, var, mk, ctype, fr, s):
        if mk == 'it':
            st = st.copy()
            st.env[var] = ('it', C, elem)
            return [st]
        if mk == 'idx':
            st = st.copy()
            st.env[var] = elem
            st.facts[('rel', elem, self.size_of(st, C))] = 1
            return [st]
        if v is None:
            return [st]
        k = T.kind(ctype)
        loc = ('L', fr.id, v['d'])
        if k == 'map':
            src = ('PR', C, elem)
        elif k == 'set':
            st = st.copy()
            if v.get('bind'):
                return [st]
            st.env[loc] = elem
            return [st]
        else:
            src = ('E', C, elem)
        if v.get('bind'):
            if not v.get('ref') and src[0] != 'PR':
                st = self.copy_object(st, src, loc)
                return [self.bind(st, loc, v, fr)]
            return [self.bind(st, src, v, fr)]
        st = st.copy()
        if v.get('ref'):
            st.env[loc] = ('ref', src)
        elif T.is_obj(v['t']):
            st = self.copy_object(st, src, loc)
        else:
            st.env[loc] = self.load(st, src)
        return [st]

    def visited(self, st, C, kinds, g, lid, s, fr, zero=False):
        """all the elements were visited: what held for each visited one holds
        for all"""
        if zero:
            # nothing was there to visit
            if any(kd[0] == 'ent' for kd in kinds) and st.facts.get(('empty', C)) is False:
                return None
            st = self.assume_empty(st, C, True)
            if st is None:
                return None
            return self.cl.on_loop(self, st, C, s, fr)
        any_ = True
        for kd in kinds:
            if kd[0] == 'base':
                o = ('o', g)
                a = ('all', C)
                if self.live(st, o):
                    any_ = True
                    if self.live(st, a):
                        st = self.forget(st, a)
                    st = self.rename(st, o, a, weak=False)
                elif self.live(st, a):
                    st = self.forget(st, a)
            else:
                val = st.facts.get(('ent', C, kd[1]))
                if val is None:
                    continue
                qs = []
                find_syms(val, ('q',), qs)
                for q in qs:
                    o = ('o', ('m', lid, q))
                    if self.live(st, o):
                        any_ = True
                        st = self.rename(st, o, q, weak=False)
                        st = st.copy()
                        st.facts[('ent', C, kd[1])] = val
                    else:
                        st = st.drop(lambda x, q=q: mentions(x, q))
                k = ('o', ('k', lid, kd[1]))
                if self.live(st, k):
                    any_ = True
                    st = self.forget(st, k)
        return self.cl.on_loop(self, st, C, s, fr)

    # ------------------------------------------------------------- expressions
    def rv(self, e, st, fr):
        out = []
        for s, R in self.ev(e, st, fr):
            out.append((s, self.val(s, R, e, fr)) if R[0] != 'LOC' else self.rload(s, R[1], e, fr))
        return out

    def val(self, s, R, e, fr):
        return R

    def rload(self, s, loc, e, fr):
        if loc[0] == 'PR':
            return (s, ('obj', loc))
        s = self.cl.on_load(self, s, loc, e, fr)
        if T.is_obj(e['t']):
            return (s, ('obj', loc))
        return (s, self.load(s, loc))

    def lv(self, e, st, fr):
        out = []
        for s, R in self.ev(e, st, fr):
            if R[0] == 'LOC':
                out.append((s, R[1]))
            elif R[0] == 'obj':
                out.append((s, R[1]))
            else:
                loc = ('T', fr.id, e['nid'])
                s = s.copy()
                self.clear_loc(s, loc)
                s.env[loc] = R
                out.append((s, loc))
        return out

    def ev(self, e, st, fr):
        self.tick()
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            self.unknown[k] = self.unknown.get(k, 0) + 1
            return [(st, TOP)]
        return m(e, st, fr)

    def ev_lit(self, e, st, fr):
        return [(st, ('c', e.get('v')))]

    def ev_null(self, e, st, fr):
        return [(st, NULL)]

    def ev_enum(self, e, st, fr):
        return [(st, ('c', e.get('v')))]

    def ev_zero(self, e, st, fr):
        k = T.kind(e.get('t', ''))
        if k == 'ptr':
            return [(st, NULL)]
        if k in T.OBJ:
            loc = ('T', fr.id, e['nid'])
            return [(self.default_init(st, loc, e['t'], e, fr), ('obj', loc))]
        return [(st, ('c', 0))]

    def ev_this(self, e, st, fr):
        return [(st, ('p', fr.this) if fr.this else TOP)]

    def ev_ref(self, e, st, fr):
        dk = e.get('dk')
        if dk == 'fn':
            return [(st, ('fnref', e.get('c') or e.get('q')))]
        d = e.get('d')
        if dk == 'global':
            if e.get('q') == 'std::nullopt' or e.get('n') == 'nullopt':
                return [(st, ('nullopt',))]
            return [(st, ('LOC', ('G', e.get('q') or e.get('n') or d)))]
        if dk == 'other' and e.get('v') is not None:
            return [(st, ('c', e['v']))]
        loc = self.local(fr, d)
        v = st.env.get(loc)
        if v is not None and v[0] == 'ref':
            return [(st, ('LOC', v[1]))]
        return [(st, ('LOC', loc))]

    def ev_mem(self, e, st, fr):
        out = []
        if e.get('ar'):
            bases = [(s, self.deref_loc(s, v, e, fr)) for s, v in self.rv(e['b'], st, fr)]
        else:
            bases = self.lv(e['b'], st, fr)
        for s, b in bases:
            f = e['f']
            if b[0] == 'PR':
                if f == 'first':
                    out.append((s, b[2]))
                else:
                    out.append((s, ('LOC', ('E', b[1], b[2]))))
                continue
            loc = ('F', b, f)
            v = s.env.get(loc)
            if v is not None and v[0] == 'ref':
                loc = v[1]
            out.append((s, ('LOC', loc)))
        return out

    def deref_loc(self, st, v, node, fr):
        return deref(v)

    def ev_un(self, e, st, fr):
        op = e['op']
        if op == '*':
            return [(s, ('LOC', deref(v)) if v[0] != 'fn' else v) for s, v in self.rv(e['e'], st, fr)]
        if op == '&':
            if e['e'].get('k') == 'memfn':
                return [(st, ('fnref', e['e'].get('c')))]
            out = []
            for s, l in self.lv(e['e'], st, fr):
                out.append((s, addr(l)))
            return out
        if op in ('++', '--', 'post++', 'post--'):
            out = []
            for s, l in self.lv(e['e'], st, fr):
                v = self.load(s, l)
                post = op.startswith('post')
                o = op[-2:][0]
                if v[0] == 'c' and isinstance(v[1], (int, float)):
                    nv = ('c', v[1] + (1 if o == '+' else -1))
                else:
                    nv = ('op', o, v, ('c', 1)) if v != TOP else TOP
                s2 = self.store(s, l, nv, e, fr)
                out.append((s2, v if post else ('LOC', l)))
            return out
        if op == '!':
            out = []
            for s, b in self.cond(e['e'], st, fr):
                out.append((s, FALSE if b else TRUE))
            return dedupe_pairs(out)
        out = []
        for s, v in self.rv(e['e'], st, fr):
            if op == '-' and v[0] == 'c' and isinstance(v[1], (int, float)):
                out.append((s, ('c', -v[1])))
            elif op == '+':
                out.append((s, v))
            else:
                out.append((s, ('op', 'u' + op, v, ('c', 0))))
        return out

    def ev_bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            return dedupe_pairs([(s, TRUE if b else FALSE) for s, b in self.cond(e, st, fr)])
        if op == ',':
            out = []
            for s, _ in self.ev(e['a'], st, fr):
                out.extend(self.ev(e['b'], s, fr))
            return out
        out = []
        for s, a in self.rv(e['a'], st, fr):
            for s2, b in self.rv(e['b'], s, fr):
                out.extend(self.binop(op, a, b, s2, e, fr))
        return out

    def binop(self, op, a, b, st, e, fr):
        if op in self.MASK:
            return [(st, self.cmp(st, op, a, b))]
        if op in ('/', '%'):
            st = self.cl.on_div(self, st, b, e, fr)
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                try:
                    isf = isinstance(x, float) or isinstance(y, float) or 'float' in e['t'] or 'double' in e['t']
                    r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                         '/': lambda: (x / y if isf else x // y), '%': lambda: x % y}.get(op)
                    if r and not (op in '/%' and y == 0):
                        return [(st, ('c', r()))]
                except Exception:
                    pass
        if a == TOP or b == TOP:
            return [(st, TOP)]
        if op == '+' and b == ('c', 0):
            return [(st, a)]
        if op == '+' and a[0] in ('it', 'itend'):
            return [(st, ('it', a[1], ('off', a, b)))]
        return [(st, ('op', op, a, b))]

    def ev_asg(self, e, st, fr):
        op = e['op']
        out = []
        for s, v in self.rv(e['b'], st, fr):
            for s2, l in self.lv(e['a'], s, fr):
                if op != '=':
                    cur = self.load(s2, l)
                    for s3, nv in self.binop(op[:-1], cur, v, s2, e, fr):
                        out.append((self.store(s3, l, nv, e, fr), ('LOC', l)))
                else:
                    out.append((self.store(s2, l, v, e, fr), ('LOC', l)))
        return out

    def ev_cond(self, e, st, fr):
        out = []
        for s, b in self.cond(e['c'], st, fr):
            out.extend(self.ev(e['a'] if b else e['b'], s, fr))
        return out

    def ev_cast(self, e, st, fr):
        if e['ck'] == 'dynamic':
            return self.dyn_cast(e, st, fr)
        out = []
        for s, R in self.ev(e['e'], st, fr):
            if R[0] == 'LOC' and T.kind(e['t']) in ('num',) and not T.is_ref(e.get('tt', '')):
                s, v = self.rload(s, R[1], e['e'], fr)
                R = v
            if R[0] == 'c' and isinstance(R[1], float) and T.kind(e['t']) == 'num' and \
                    strip_bool(e['t']) not in ('float', 'double'):
                R = ('c', int(R[1]))
            elif R[0] not in ('LOC', 'obj', 'c') and T.kind(e['t']) == 'num':
                R = R
            out.append((s, R))
        return out

    def dyn_cast(self, e, st, fr):
        out = []
        tt = e['tt']
        for s, v in self.rv(e['e'], st, fr):
            if v[0] == 'mk':
                q = T.base(tt.replace('*', ''))
                out.append((s, v if q in self.p.bases(v[1]) else NULL))
                continue
            if v == NULL:
                out.append((s, NULL))
                continue
            t = ('dyn', T.strip(tt.replace('const ', '').replace('*', '').replace('&', '')), v)
            a = self.assume(s, t, True)
            if a is not None:
                a2 = self.relset(a, v, NULL, 5)
                out.append((a2 if a2 is not None else a, v))
            b = self.assume(s, t, False)
            if b is not None:
                out.append((b, NULL))
        return out

    def ev_lambda(self, e, st, fr):
        caps = []
        cur = [(st, ())]
        for c in e['caps']:
            nxt = []
            for s, acc in cur:
                if c.get('this'):
                    nxt.append((s, acc + (('this',),)))
                    continue
                if c.get('d') is None:
                    nxt.append((s, acc))
                    continue
                init = c.get('init')
                if c.get('ref') or (init is not None and False):
                    if init is not None:
                        for s2, l in self.lv(init, s, fr):
                            nxt.append((s2, acc + ((c['d'], 'ref', l),)))
                    else:
                        nxt.append((s, acc + ((c['d'], 'ref', self.local(fr, c['d'])),)))
                else:
                    if init is not None:
                        for s2, v in self.rv(init, s, fr):
                            if v[0] == 'obj':
                                tl = ('T', fr.id, (e['nid'], c['d']))
                                s2 = self.copy_object(s2, v[1], tl)
                                nxt.append((s2, acc + ((c['d'], 'ref', tl),)))
                            else:
                                nxt.append((s2, acc + ((c['d'], 'val', v),)))
                    else:
                        l = self.local(fr, c['d'])
                        nxt.append((s, acc + ((c['d'], 'val', self.load(s, l)),)))
            cur = nxt
        self.lambdas[e['nid']] = (e, fr.file)
        return [(s, ('fn', e['nid'], acc, fr.this)) for s, acc in cur]

    lambdas = {}

    def ev_init(self, e, st, fr):
        k = T.kind(e['t'])
        loc = ('T', fr.id, e['nid'])
        st = st.copy()
        self.clear_loc(st, loc)
        st.env.pop(loc, None)
        if k == 'rec':
            rec = self.rec_by_q.get(e.get('q') or '') or self.rec_by_q.get(T.strip(e['t']))
            if rec is None:
                cur = [st]
                for a in e['a']:
                    cur = [s for c in cur for s, _ in self.rv(a, c, fr)] if a else cur
                return [(s, ('obj', loc)) for s in cur]
            cur = [st]
            for fl, a in zip(rec['f'], e['a']):
                nxt = []
                for s in cur:
                    if a is None:
                        nxt.append(s)
                        continue
                    if fl.get('ref') or T.is_ref(fl['t']):
                        for s2, l in self.lv(a, s, fr):
                            s2 = s2.copy()
                            s2.env[('F', loc, fl['n'])] = ('ref', l)
                            nxt.append(s2)
                    else:
                        for s2, v in self.rv(a, s, fr):
                            if T.kind(fl['t']) == 'opt' and not (v[0] == 'obj' and T.kind(a['t']) == 'opt'):
                                s2 = self.opt_assign(s2, ('F', loc, fl['n']), v, a, fr)
                            else:
                                s2 = self.store(s2, ('F', loc, fl['n']), v, a, fr, quiet=True)
                            nxt.append(s2)
                cur = nxt
            return [(s, ('obj', loc)) for s in cur]
        if k in T.CONT:
            return self.make_list(st, loc, e['a'], e, fr)
        if len(e['a']) == 1 and e['a'][0]:
            return self.ev(e['a'][0], st, fr)
        if not e['a']:
            return self.ev_zero(e, st, fr)
        return [(st, TOP)]

    def ev_throw(self, e, st, fr):
        cur = [st]
        if e.get('e'):
            # the message is not relevant
            pass
        for s in cur:
            self.throws[-1].append((s.note((fr.file, e['l'], 'throw')), dict(e, file=fr.file)))
        return []

    def ev_new(self, e, st, fr):
        return [(st, ('mk', T.base(e['tt']), (fr.id, e['nid']), ()))]

    def ev_del(self, e, st, fr):
        return [(s, ('c', 0)) for s, _ in self.ev(e['e'], st, fr)]

    def ev_sub(self, e, st, fr):
        out = []
        for s, a in self.rv(e['a'], st, fr):
            for s2, b in self.rv(e['b'], s, fr):
                out.append((s2, ('LOC', ('E', deref(a), b))))
        return out

    def ev_memfn(self, e, st, fr):
        return [(st, ('fnref', e.get('c')))]

    def ev_unk(self, e, st, fr):
        self.unknown['unk'] = self.unknown.get('unk', 0) + 1
        return [(st, TOP)]

    # ------------------------------------------------------------ construction
    def ev_ctor(self, e, st, fr):
        r = self.std_ctor(e, st, fr)
        if r is not None:
            return r
        loc = ('T', fr.id, e['nid'])
        st = st.copy()
        self.clear_loc(st, loc)
        st.env.pop(loc, None)
        return [(s, ('obj', loc)) for s, _ in self.construct(e, st, fr, loc)]

    def construct(self, e, st, fr, loc):
        """runs the constructor e on the object at loc"""
        if e.get('cm'):
            out = []
            f = self.p.funcs.get(e['c'])
            for s, R in self.lv(e['a'][0], st, fr):
                if f and f.get('body') and not f.get('implicit') and not self.cl.opaque(f):
                    out.extend(self.call_fn(f, s, loc, [('LOC', R)], e, fr))
                else:
                    out.append((self.copy_object(s, R, loc), ('obj', loc)))
            return out
        f = self.p.funcs.get(e['c'])
        if f is None:
            return [(s, ('obj', loc)) for s in self.default_obj(e, st, fr, loc)]
        out = []
        for s, args in self.eval_args(f, e, st, fr):
            out.extend(self.call_fn(f, s, loc, args, e, fr))
        return out

    def default_obj(self, e, st, fr, loc):
        cur = [st]
        vals = [()]
        out = []
        for s, args in self.eval_any(e.get('a') or [], st, fr):
            rec = self.rec_by_q.get(e['q'])
            if rec is not None and not args:
                s = self.default_init(s, loc, rec['t'], e, fr)
            else:
                s = s.copy()
                s.env[loc] = ('mkv', e['q'], (fr.id, e['nid']), tuple(self.flat(s, a) for a in args))
            out.append(s)
        return out

    def default_init(self, st, loc, t, e, fr):
        k = T.kind(t)
        st = st.copy()
        self.clear_loc(st, loc)
        st.env.pop(loc, None)
        if k in T.CONT:
            st.facts[('built', loc)] = True
            st.facts[('empty', loc)] = True
            return st
        if k == 'opt':
            st.env[('F', loc, '?')] = FALSE
            return st
        if k == 'var':
            st.env[('F', loc, '#')] = ('c', 0)
            return st
        if k == 'rec':
            rec = self.rec_by_q.get(T.strip(t)) or self.rec_by_q.get(T.base(t))
            if rec:
                for b in rec['b']:
                    if 'q' in b:
                        st = self.default_init(st, loc, b['q'], e, fr)
                for f in rec['f']:
                    fl = ('F', loc, f['n'])
                    if f.get('init'):
                        r = self.rv(f['init'], st, fr)
                        if len(r) == 1:
                            st = self.store(r[0][0], fl, r[0][1], e, fr, quiet=True)
                    else:
                        st = self.default_init(st, fl, f['t'], e, fr)
            return st
        if k == 'ptr' and T.base(t) != '*':
            st.env[loc] = NULL
        elif k == 'ptr':
            st.env[loc] = ('undef', loc)
        elif k == 'str':
            st.env[loc] = ('c', '')
        return st

    # ------------------------------------------------------------------- calls
    def flat(self, st, R):
        """argument as a value term"""
        if R[0] == 'LOC':
            v = st.env.get(R[1])
            if v is not None and v[0] not in ('ref', 'cpy', 'h'):
                return v
            return ('at', R[1]) if R[1][0] in ('L', 'T') else self.load(st, R[1])
        return R

    def eval_any(self, exprs, st, fr):
        cur = [(st, ())]
        for a in exprs:
            nxt = []
            for s, acc in cur:
                if a is None:
                    nxt.append((s, acc + (TOP,)))
                    continue
                for s2, R in self.ev(a, s, fr):
                    nxt.append((s2, acc + (R,)))
            cur = nxt
        return cur

    def eval_args(self, f, e, st, fr):
        prs = f['params']
        cur = [(st, ())]
        for i, a in enumerate(e.get('a') or []):
            ref = i < len(prs) and (prs[i].get('ref') or T.is_ref(prs[i]['t']))
            nxt = []
            for s, acc in cur:
                if a is None:
                    nxt.append((s, acc + (TOP,)))
                elif ref:
                    for s2, R in self.ev(a, s, fr):
                        nxt.append((s2, acc + (R if R[0] in ('LOC', 'obj') else R,)))
                else:
                    for s2, v in self.rv(a, s, fr):
                        nxt.append((s2, acc + (v,)))
            cur = nxt
        return cur

    def ev_call(self, e, st, fr):
        self.callsites.add(e['nid'])
        q = e.get('q') or ''
        f = self.p.funcs.get(e.get('c')) if e.get('c') else None
        # calls through values (closures, std::function, function pointers)
        if f is None or self.std_modelled(q):
            r = self.std_call(e, q, st, fr)
            if r is not None:
                return dedupe_pairs(r)
        if f is not None and f.get('body') is None:
            f = None
        # object
        objs = [(st, None)]
        if e.get('o') is not None and not e.get('st'):
            if e.get('ar'):
                objs = [(s, deref(v)) for s, v in self.rv(e['o'], st, fr)]
            else:
                objs = self.lv(e['o'], st, fr)
        out = []
        for s, this in objs:
            cands = [f] if f else []
            if e.get('virt') and not e.get('nonvirt'):
                cands = self.targets(e, this, f)
            if not cands:
                out.extend(self.external(e, q, s, this, fr))
                continue
            for c in cands:
                for s2, args in self.eval_args(c, e, s, fr):
                    s2 = self.assume_type(s2, this, c) if len(cands) > 1 else s2
                    if s2 is None:
                        continue
                    out.extend(self.call_fn(c, s2, this, list(args), e, fr))
        return dedupe_pairs(out)

    def assume_type(self, st, this, f):
        if this[0] == 'D':
            t = ('dyn', f['cls'], this[1])
            # the dynamic type is one of those inheriting f's class
            for k, v in st.facts.items():
                if k[0] == 'b' and k[1][0] == 'dyn' and k[1][2] == this[1]:
                    c = k[1][1]
                    sub = c in self.p.bases(f['cls']) or f['cls'] in self.p.bases(c)
                    if v and not sub:
                        return None
                    if not v and c in self.p.bases(f['cls']):
                        return None
        return st

    def targets(self, e, this, f):
        if this and this[0] == 'D' and this[1][0] == 'mk':
            for b in self.p.bases(this[1][1]):
                for k in self.p.overriders.get(e['c'], ()):
                    c = self.p.funcs.get(k)
                    if c and c.get('cls') == b and c.get('body'):
                        return [c]
        r = []
        for k in sorted(self.p.overriders.get(e['c'], ())):
            c = self.p.funcs.get(k)
            if c and c.get('body'):
                r.append(c)
        if f and f.get('body') and f not in r:
            r.append(f)
        return r

    def external(self, e, q, st, this, fr):
        """call without body: result unknown, non const reference arguments havocked"""
        self.opaque_calls[q] = self.opaque_calls.get(q, 0) + 1
        out = []
        pk = e.get('pk') or []
        for s, args in self.eval_any(e.get('a') or [], st, fr):
            r = self.cl.ext_call(self, s, q, this, args, e, fr)
            if r is not None:
                out.extend(r)
                continue
            for i, a in enumerate(args):
                if i < len(pk) and pk[i] == 'r' and a[0] == 'LOC':
                    s = self.havoc(s, a[1], e, fr)
                v = a if a[0] == 'fn' else (s.env.get(a[1]) if a[0] == 'LOC' else None)
                if v is not None and v[0] == 'fn':
                    for s2 in self.maybe_run(v, s, e, fr):
                        s = s2
            if this is not None and not e.get('cst') and not e.get('st'):
                s = self.havoc(s, this, e, fr)
            fl = tuple(self.flat(s, a) for a in args)
            obj = (('obj', this),) if this is not None else ()
            R = ('call', q, obj + fl) if e.get('cst') or this is None and all(x in ('v', 'cr', 'p') for x in pk) else \
                ('res', q, fr.id, e['nid'])
            if T.is_obj(e['t']):
                loc = ('T', fr.id, e['nid'])
                s = s.copy()
                self.clear_loc(s, loc)
                s.env[loc] = R
                R = ('obj', loc)
            out.append((s, R))
        return out

    def maybe_run(self, fnv, st, e, fr):
        """the closure may be run any number of times: one state that includes all"""
        cur = [st]
        res = [st]
        for _ in range(2):
            nxt = []
            for s in cur:
                nxt.extend(x for x, _ in self.call_closure(fnv, s, [TOP] * 4, e, fr))
            res.extend(nxt)
            cur = dedupe(nxt)
        return dedupe(res)

    def call_closure(self, fnv, st, args, e, fr):
        """args: list of R"""
        if fnv[0] == 'fnref':
            f = self.p.funcs.get(fnv[1])
            if f and f.get('body'):
                return self.call_fn(f, st, None, list(args), e, fr)
            return [(st, ('res', str(fnv[1]), fr.id, e['nid']))]
        if fnv[0] == 'eqv':
            return [(st, self.eq_value(st, args[0], fnv[1], e, fr))]
        if fnv[0] != 'fn':
            return [(st, ('res', 'closure', fr.id, e['nid']))]
        lam, file = self.lambdas[fnv[1]]
        f = {'c': 'lambda:%s' % (fnv[1],), 'q': 'lambda', 'params': lam['params'], 'rt': lam.get('rt') or 'void',
             'body': lam['body'], 'file': file, 'l': lam['l'], 'cls': None}
        caps = {}
        s = st
        path = fr.path + ((e['nid'], fnv[1]),)
        fid = self.frame_id(path)
        for c in fnv[2]:
            if c[0] == 'this':
                continue
            d, kd, v = c
            if kd == 'ref':
                caps[d] = v
            else:
                l = ('L', fid, d)
                s = s.copy()
                s.env[l] = v
                caps[d] = l
        return self.call_fn(f, s, fnv[3], list(args), e, fr, caps=caps, path=path)

    def call_fn(self, f, st, this, args, e, fr, caps=None, path=None, force=False):
        if not force and (self.cl.opaque(f) or f['c'] in fr.stack or len(fr.stack) > self.maxdepth):
            return self.opaque_fn(f, st, this, args, e, fr)
        r = self.cl.on_call(self, st, f, this, args, e, fr)
        if isinstance(r, list):
            return r
        st = r
        self.inlined.add(f['c'])
        path = path or (fr.path + (e['nid'],))
        fid = self.frame_id(path)
        stack = fr.stack + (f['c'],)
        nf = Fr(fid, f, this, caps or {}, path, stack, f['file'])
        st = st.copy()
        for i, prm in enumerate(f['params']):
            loc = ('L', fid, prm['d'])
            a = args[i] if i < len(args) else TOP
            self.clear_loc(st, loc)
            if (prm.get('ref') or T.is_ref(prm['t'])):
                if a[0] == 'LOC':
                    st.env[loc] = ('ref', a[1])
                elif a[0] == 'obj':
                    st.env[loc] = ('ref', a[1])
                else:
                    st.env[loc] = a
            elif a[0] == 'LOC':
                st = self.store(st, loc, ('obj', a[1]) if T.is_obj(prm['t']) else self.load(st, a[1]), e, fr, quiet=True)
            elif T.kind(prm['t']) == 'opt' and a[0] != 'obj':
                st = self.opt_assign(st, loc, a, e, fr)
            else:
                st = self.store(st, loc, a, e, fr, quiet=True)
        cur = [st]
        if f.get('ctor'):
            cur = self.ctor_inits(f, cur, nf, this, e)
        rets = []
        body = f.get('body')
        for s in cur:
            if body is None:
                rets.append((s, ('c', 0)))
                continue
            ch = self.stmt(body, s, nf)
            rets.extend(ch['r'])
            rets.extend((x, ('c', 0)) for x in ch['n'])
        out = []
        T_ = ('T', fr.id, e['nid'])
        for s, R in rets:
            if R[0] == 'LOC' and self.in_frame(R[1], fid):
                v = s.env.get(R[1])
                R = ('obj', R[1]) if v is None or T.is_obj(f['rt']) else v
            if R[0] == 'obj' and self.in_frame(R[1], fid):
                s = s.copy()
                self.clear_loc(s, T_)
                s.env.pop(T_, None)
                a = ('all', T_)
                if self.live(s, a):
                    s = self.forget(s, a)
                s = self.copy_object(s, R[1], T_)
                R = ('obj', T_)
            elif R[0] == 'obj' and not T.is_ref(f['rt']):
                if R[1][0] != 'PR':
                    s = self.copy_object(s, R[1], T_)
                    R = ('obj', T_)
            s = self.cl.on_frame_end(self, s, nf)
            s = self.kill_frame(s, fid)
            s = self.cl.on_ret(self, s, f, this, R, e, fr)
            out.append((s, R))
        return dedupe_pairs(out)

    def in_frame(self, loc, fid):
        r = root(loc)
        return r[0] in ('L', 'T') and r[1] == fid

    def ctor_inits(self, f, cur, fr, this, e):
        inits = f.get('inits') or []
        if any(i.get('deleg') for i in inits):
            pass
        for i in inits:
            ie = i.get('e')
            if ie is None:
                continue
            nxt = []
            for s in cur:
                if i.get('f'):
                    loc = ('F', this, i['f'])
                    fld = self.field(f['cls'], i['f'])
                    if fld and (fld.get('ref') or T.is_ref(fld['t'])):
                        for s2, l in self.lv(ie, s, fr):
                            s2 = s2.copy()
                            s2.env[loc] = ('ref', l)
                            nxt.append(s2)
                        continue
                    t = fld['t'] if fld else ie['t']
                    s = s.copy()
                    self.clear_loc(s, loc)
                    s.env.pop(loc, None)
                    for s2, v in self.rv_into(ie, loc, s, fr, t):
                        s2 = self.cl.on_store(self, s2, loc, v, ie, fr)
                        nxt.append(s2)
                else:
                    # base or delegating constructor on the same object
                    if ie['k'] == 'ctor':
                        if self.std_ctor_q(ie):
                            for s2, v in self.rv(ie, s, fr):
                                nxt.append(self.store(s2, this, v, ie, fr, quiet=True) if v[0] == 'obj' and False else s2)
                        else:
                            for s2, _ in self.construct(ie, s, fr, this):
                                nxt.append(s2)
                    else:
                        nxt.append(s)
            cur = dedupe(nxt)
        return cur

    def field(self, cls, name):
        for b in self.p.bases(cls or ''):
            r = self.rec_by_q.get(b)
            if r:
                for x in r['f']:
                    if x['n'] == name:
                        return x
        return None

    def opaque_fn(self, f, st, this, args, e, fr):
        self.opaque_calls[f['q']] = self.opaque_calls.get(f['q'], 0) + 1
        r = self.cl.opq_call(self, st, f, this, tuple(args), e, fr)
        if isinstance(r, list):
            return r
        if r is not None:
            st = r
        r = self.cl.ext_call(self, st, f['q'], this, tuple(args), e, fr)
        if r is not None:
            return r
        s = st
        for a, prm in zip(args, f['params']):
            if a[0] == 'LOC' and prm.get('ref') and not prm.get('cst'):
                v = s.env.get(a[1])
                if v is not None and v[0] == 'fn':
                    continue
                s = self.havoc(s, a[1], e, fr)
            v = a if a[0] == 'fn' else (s.env.get(a[1]) if a[0] == 'LOC' else None)
            if v is not None and v[0] == 'fn':
                rs = self.maybe_run(v, s, e, fr)
                s = rs[0] if len(rs) == 1 else rs[-1]
        if f.get('ctor'):
            s = s.copy()
            self.clear_loc(s, this)
            s.env[this] = ('mkv', f['cls'], (fr.id, e['nid']), tuple(self.flat(s, a) for a in args))
            return [(s, ('obj', this))]
        if this is not None and f.get('cls') and not f.get('cst') and not f.get('st'):
            s = self.havoc(s, this, e, fr)
        fl = tuple(self.flat(s, a) for a in args)
        ob = (addr(this),) if this is not None else ()
        R = ('call', f['q'], ob + fl)
        if depth(R) > 30:
            R = TOP
        if T.is_ref(f['rt']):
            return [(s, ('LOC', ('D', R)))]
        if T.is_obj(f['rt']):
            loc = ('T', fr.id, e['nid'])
            s = s.copy()
            self.clear_loc(s, loc)
            s.env[loc] = R
            return [(s, ('obj', loc))]
        return [(s, R)]


def strip_bool(t):
    return T.strip(t)


def v_node(v, init):
    return init or {'nid': ('decl', v['d']), 'l': v.get('l', 0), 'k': 'decl', 't': v['t']}
