"""call graph and effects of the functions of the program"""
import prog as P
import ctypes_ as T

# non const members of the standard library that only give access
ACCESS = {'begin', 'end', 'rbegin', 'rend', 'find', 'front', 'back', 'operator[]', 'at', 'operator*', 'operator->',
          'get', 'data', 'value', 'lower_bound', 'upper_bound', 'equal_range'}


def parents(body):
    par = {}
    stack = [body]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            for v in x.values():
                for y in (v if isinstance(v, list) else [v]):
                    if isinstance(y, dict):
                        if 'k' not in y:
                            # variables, handlers, captures
                            for z in y.values():
                                if isinstance(z, dict) and 'k' in z:
                                    par[id(z)] = (x, y)
                                    stack.append(z)
                                elif isinstance(z, list):
                                    for w in z:
                                        if isinstance(w, dict) and 'k' in w:
                                            par[id(w)] = (x, y)
                                            stack.append(w)
                        else:
                            par[id(y)] = (x, None)
                            stack.append(y)
        elif isinstance(x, list):
            stack.extend(x)
    return par


class CG:
    def __init__(self, p):
        self.p = p
        self.calls = {}
        self.throws0 = set()
        for u, f in p.funcs.items():
            cs = set()
            th = [False]

            def v(n):
                k = n.get('k')
                if k in ('call', 'ctor') and n.get('c'):
                    cs.add(n['c'])
                    if n.get('virt'):
                        cs.update(p.overriders.get(n['c'], ()))
                if k in ('call', 'ctor', 'memfn', 'ref'):
                    for t in n.get('ta') or ():
                        if isinstance(t, str):
                            cs.add(t)
                if k == 'throw':
                    th[0] = True
            P.walk([f.get('body'), f.get('inits')], v)
            self.calls[u] = cs
            if th[0]:
                self.throws0.add(u)
        # make_unique/make_shared/emplace of a class of the program: its constructors
        self.ctors = {}
        for u, f in p.funcs.items():
            if f.get('ctor') and f.get('cls'):
                self.ctors.setdefault(f['cls'], []).append(u)
        for u, f in p.funcs.items():
            cs = self.calls[u]

            def v2(n):
                if n.get('k') == 'call' and (n.get('q') or '').startswith('std::'):
                    nm = n['q'].split('<')[0].split('::')[-1]
                    ts = [n.get('t') or '']
                    if nm in ('make_unique', 'make_shared') or 'emplace' in n['q'].split('::')[-1]:
                        for cl, us in self.ctors.items():
                            if any(cl in t for t in ts) or (n.get('o') and cl in (n['o'].get('t') or '')):
                                cs.update(us)
            P.walk([f.get('body'), f.get('inits')], v2)
        self._w = {}
        self._thr = None

    def reach(self, seeds):
        """functions from which one of seeds is reachable (seeds included)"""
        rev = {}
        for u, cs in self.calls.items():
            for c in cs:
                rev.setdefault(c, set()).add(u)
        out = set()
        st = list(seeds)
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(rev.get(x, ()))
        return out

    def callees(self, u):
        out = set()
        st = [u]
        while st:
            x = st.pop()
            if x in out or x not in self.calls:
                continue
            out.add(x)
            st.extend(self.calls[x])
        return out

    def may_throw(self, u):
        if self._thr is None:
            self._thr = self.reach(self.throws0)
        return u in self._thr

    def writes(self, f):
        """fields (class, name) the function may write or give away mutable"""
        r = self._w.get(f['c'])
        if r is not None:
            return r
        out = set()
        par = parents({'k': 'root', 'b': [f.get('body'), f.get('inits')]} if not isinstance(f.get('inits'), dict) else f.get('body'))

        def ctx(n):
            """is n used in a way that may change it"""
            pr = par.get(id(n))
            if pr is None:
                return False
            x, sub = pr
            k = x.get('k')
            if k == 'asg':
                return x['a'] is n
            if k == 'un':
                if x['op'] in ('++', '--', 'post++', 'post--', '&'):
                    return 'const ' not in (n.get('t') or '')[:6]
                return False
            if k == 'mem':
                return ctx(x)
            if k == 'cast':
                return ctx(x)
            if k == 'call':
                if x.get('o') is n:
                    if x.get('cst'):
                        # const access may still lead to pointees
                        return False
                    nm = (x.get('q') or '').split('::')[-1]
                    if nm in ACCESS or (x.get('op') in ('[]', '*', '->')):
                        return ctx(x) if 'iterator' not in (x.get('t') or '') else False
                    return True
                for i, a in enumerate(x.get('a') or ()):
                    if a is n:
                        pk = x.get('pk') or []
                        return i >= len(pk) or pk[i] not in ('cr', 'v')
                return True
            if k == 'ctor':
                return False
            if k == 'decl':
                v = sub or {}
                t = v.get('t') or ''
                return bool(v.get('ref')) and not t.startswith('const')
            if k == 'rfor':
                v = x.get('v') or {}
                t = v.get('t') or ''
                return bool(v.get('ref')) and not t.startswith('const')
            if k == 'ret':
                return T.is_ref(f['rt']) and not f['rt'].startswith('const')
            if k == 'lambda':
                return True
            if k == 'init':
                return True
            return False

        def v(n):
            if n.get('k') == 'mem':
                if ctx(n):
                    out.add((n.get('fc'), n.get('f')))
        P.walk([f.get('body'), f.get('inits')], v)
        self._w[f['c']] = out
        return out

    def writers(self, fields):
        """functions that may, directly or not, write one of the fields"""
        return self.reach([u for u, f in self.p.funcs.items() if any(w[1] in fields for w in self.writes(f))])
