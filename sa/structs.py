"""Analysis of the state of a model: what every operation does to the nodes, to
the clusters, to the evidences and to what is derived from them.

Items (may-set St.cs) are obligations opened on a path and not yet closed:
 ('stale',what,at)      the model changed while a propagation result is stored
 ('mut',what,at)        the model was changed since the operation started
 ('mu',node)            the merged unaries of node are outdated
 ('em',node,key)        the message of the disabled connection node->key is outdated
 ('conn',at)            a cluster has an outdated connectivity
 ('half',map,op,a,b)    one side only of a connection was touched
"""
import ctypes_ as T
import engine as G
import cg as CGm
from terms import *

ST = 'EFG::strct::'


class Roles:
    """fields by their type (names are used only to tell apart the two kinds of
    connections)"""

    def __init__(self, p):
        self.f = {}
        self.missing = []

        def pick(role, rec, test, default):
            r = p.record(rec)
            n = None
            if r:
                c = [x['n'] for x in r['f'] if test(x)]
                if default in c or not c:
                    n = default if default in c else None
                else:
                    n = c[0]
            if n is None:
                self.missing.append(role)
                n = default
            self.f[role] = n
        gs = ST + 'StateAware::GraphState'
        pick('state', ST + 'StateAware', lambda x: 'GraphState' in x['t'], 'state_')
        pick('variables', gs, lambda x: x['t'].startswith('std::vector<std::shared_ptr<EFG::categoric::Variable'), 'variables')
        pick('nodes', gs, lambda x: 'unordered_map' in x['t'] and 'strct::Node' in x['t'], 'nodes')
        pick('clusters', gs, lambda x: 'HiddenCluster' in x['t'], 'clusters')
        pick('evidences', gs, lambda x: 'unordered_map' in x['t'] and 'strct::Node' not in x['t'], 'evidences')
        nd = ST + 'Node'
        pick('nvar', nd, lambda x: x['t'].startswith('std::shared_ptr<EFG::categoric::Variable'), 'variable')
        pick('active', nd, lambda x: 'Node::Connection' in x['t'] and 'dis' not in x['n'], 'active_connections')
        pick('disabled', nd, lambda x: 'Node::Connection' in x['t'] and x['n'] != self.f.get('active'), 'disabled_connections')
        pick('unaries', nd, lambda x: x['t'].startswith('std::vector') and 'Immutable' in x['t'], 'unary_factors')
        pick('merged', nd, lambda x: 'Cache<' in x['t'] or 'UnaryFactor' in x['t'], 'merged_unaries')
        cn = nd + '::Connection'
        pick('cfactor', cn, lambda x: x['t'].startswith('std::shared_ptr'), 'factor')
        pick('message', cn, lambda x: 'unique_ptr' in x['t'], 'message')
        hc = ST + 'HiddenCluster'
        pick('cnodes', hc, lambda x: 'unordered_set' in x['t'] or x['t'].startswith('std::set'), 'nodes')
        pick('connectivity', hc, lambda x: 'TopologyInfo' in x['t'], 'connectivity')
        ba = ST + 'BeliefAware'
        pick('belief', ba, lambda x: x['t'].startswith('std::optional') and 'PropagationResult' in x['t'], 'lastPropagation')
        pick('propagator', ba, lambda x: 'LoopyBelief' in x['t'], 'loopy_propagator')
        pick('factors', ST + 'FactorsAware', lambda x: 'Immutable' in x['t'], 'factorsAll')
        pick('pool', ST + 'PoolAware', lambda x: 'Pool' in x['t'], 'pool')
        pick('constf', ST + 'FactorsConstGetter', lambda x: 'Immutable' in x['t'], 'const_factors')
        tg = 'EFG::train::FactorsTunableGetter'
        pick('tunablef', tg, lambda x: 'unordered_set' in x['t'], 'tunable_factors')
        pick('tuners', tg, lambda x: 'Tuner' in x['t'], 'tuners')
        self.of_rec = {}
        self.back = {}
        for k, v in self.f.items():
            self.back.setdefault(v, []).append(k)


MODEL = ('StateAware',)


def model_classes(p):
    base = ST + 'StateAware'
    return set(r['q'] for r in p.records.values() if base in p.bases(r['q']))


def entry_points(p):
    """public operations of the models"""
    ms = model_classes(p)
    out = []
    for f in p.funcs.values():
        if f.get('cls') in ms and f.get('acc') == 'public' and f.get('body') and \
                not f.get('implicit') and not f.get('dtor') and not f.get('st') and 'lambda' not in f['q']:
            out.append(f)
    out.sort(key=lambda f: (f['file'], f['l']))
    return out


OPQ = ('EFG::factor::', 'EFG::categoric::', 'EFG::Error', 'EFG::train::TrainSet', 'EFG::io::')


ALL = ('stale', 'mut', 'mu', 'em', 'conn', 'half')


class StructClient(G.Client):
    def __init__(self, p, roles, track=ALL, sums=None):
        self.track = track
        self.sums = sums
        self.p = p
        self.r = roles
        self.viol = {}
        self.events = {}
        self.bad = {}
        self.entry = None
        self.ms = model_classes(p)

    # ----------------------------------------------------------- recognisers
    def opaque(self, f):
        q = f['q']
        if q.startswith(OPQ):
            return True
        if self.sums is not None and (self.sums.boundary(f) or self.sums.skip(f)):
            return True
        if 'HiddenCluster' in f['rt'] and 'list<' in f['rt'] and not T.is_ref(f['rt']):
            return True
        return False

    def role(self, loc):
        """(role, holder) of a location"""
        R = self.r.f
        if loc[0] == 'F':
            n, b = loc[2], loc[1]
            inst = b[0] == 'F' and b[2] == R['state']
            if inst and n in (R['variables'], R['nodes'], R['clusters'], R['evidences']):
                return [k for k in ('variables', 'nodes', 'clusters', 'evidences') if R[k] == n][0], b
            if b[0] == 'E' and b[1][0] == 'F':
                c = b[1][2]
                if c in (R['active'], R['disabled']) and n in (R['cfactor'], R['message']):
                    return ('a' if c == R['active'] else 'd') + ('factor' if n == R['cfactor'] else 'message'), b
                if c == R['clusters'] and n in (R['cnodes'], R['connectivity']):
                    return ('cnodes' if n == R['cnodes'] else 'connectivity'), b
            for k in ('active', 'disabled', 'unaries', 'merged', 'belief', 'propagator', 'factors', 'pool',
                      'constf', 'tunablef', 'tuners'):
                if R[k] == n:
                    if k in ('pool', 'belief', 'factors', 'constf', 'tunablef', 'tuners', 'propagator') and b[0] == 'E':
                        continue
                    return k, b
            if n == R['connectivity'] and b[0] in ('D', 'O'):
                return 'connectivity', b
            if n == R['message'] and b[0] in ('D', 'O'):
                return 'message', b
            if n == 'second' and b[0] == 'PR':
                return self.role(('E', b[1], b[2]))
        if loc[0] == 'E':
            k, b = self.role(loc[1])
            if k in ('evidences', 'nodes', 'clusters', 'tuners', 'unaries', 'variables'):
                return k + '[]', loc[1]
        if loc[0] == 'F' and loc[2] in ('*', '?'):
            return self.role(loc[1])
        return None, None

    def local(self, loc):
        return root(loc)[0] in ('L', 'T', 'N')

    def at(self, node, fr):
        import prog as P
        return (P.rel(fr.file), node.get('l'))

    def ev(self, role, op, node, fr):
        k = (role, op, self.at(node, fr))
        self.events[k] = self.events.get(k, 0) + 1

    # state helpers
    def evid(self, st):
        return ('F', ('F', ('O', 'this'), self.r.f['state']), self.r.f['evidences'])

    def nodesC(self):
        return ('F', ('F', ('O', 'this'), self.r.f['state']), self.r.f['nodes'])

    def var_of(self, eng, st, nval):
        return eng.load(st, ('F', deref(nval), self.r.f['nvar']))

    def observed(self, eng, st, nval):
        v = self.var_of(eng, st, nval)
        return eng.is_in(st, self.evid(st), v)

    def load(self, eng, st, loc):
        # a node refers to the variable it is stored with
        if loc[0] == 'F' and loc[2] == self.r.f['nvar'] and loc[1][0] == 'D':
            v = loc[1][1]
            if v[0] == 'ld' and v[1][0] == 'E' and v[1][1] == self.nodesC():
                return v[1][2]
        return None

    WEAK = ('dfactor', 'dmessage', 'afactor')  # always changed together with something else
    CHANGE = ('variables', 'nodes', 'evidences', 'active', 'disabled', 'unaries', 'factors',
              'afactor', 'dfactor', 'dmessage', 'evidences[]', 'nodes[]', 'unaries[]',
              'weight', 'variables[]')
    REG = ('clusters', 'clusters[]', 'cnodes', 'constf', 'tunablef', 'tuners', 'tuners[]', 'propagator', 'pool')

    def changed(self, eng, st, role, node, fr):
        at = self.at(node, fr)
        if role in self.WEAK and 'em' not in self.track:
            return st
        if role in self.CHANGE and 'stale' in self.track:
            if not st.facts.get(('R',)):
                st = st.add(('stale', role, at))
        return st.add(('mut', role, at)) if 'mut' in self.track else st

    # ----------------------------------------------------------------- hooks
    def on_store(self, eng, st, loc, val, node, fr):
        if self.local(loc):
            return st
        role, b = self.role(loc)
        if role is None:
            return st
        self.ev(role, 'store', node, fr)
        if role == 'belief':
            st = st.copy()
            if val == ('nullopt',):
                st.facts[('R',)] = True
                st.cs = frozenset(x for x in st.cs if x[0] != 'stale')
            else:
                st.facts.pop(('R',), None)
                st.facts[('recorded',)] = True
            return st
        if role in self.CHANGE or role in self.REG:
            st = self.changed(eng, st, role, node, fr)
        if role == 'merged':
            nv = addr(b)
            st = self.clean(st, ('mu', nv))
        elif role in ('dmessage',):
            # b = ('E', ('F', N, disabled), key)
            nv, key = addr(b[1][1]), b[2]
            st = self.clean(st, ('em', nv, key))
            st = self.open_mu(eng, st, nv)
        elif role == 'dfactor' or role == 'unaries[]':
            pass
        elif role == 'evidences[]':
            st = self.evidence_changed(eng, st, self.key_of(loc))
        elif role == 'connectivity':
            st = st.drop(lambda x: x[0] == 'conn')
        return st

    def key_of(self, loc):
        if loc[0] == 'E':
            return loc[2]
        if loc[0] == 'F' and loc[1][0] == 'PR':
            return loc[1][2]
        return TOP

    def in_vars(self, v):
        return v[0] == 'ld' and v[1][0] == 'E' and self.role(v[1][1])[0] == 'variables'

    def node_of(self, eng, st, v):
        """value of the pointer to the node of variable v"""
        # the node that was found for that variable
        return eng.load(st, ('E', self.nodesC(), v))

    def open_mu(self, eng, st, nv):
        if contains_tag(nv, ('top',)):
            return st
        m = eng.load(st, ('F', deref(nv), self.r.f['merged']))
        if m == NULL:
            return st
        if self.observed(eng, st, nv) is True:
            return st
        return self.dirty(st, ('mu', nv))

    def clean(self, st, x):
        if x[0] not in self.track:
            return st
        st = st.drop(lambda y: y == x or (y[0] == 'em!' and x[0] == 'em' and y[1:] == x[1:]))
        st.facts[('clean',) + x] = True
        return st

    def dirty(self, st, x):
        if x[0] not in self.track:
            return st
        st = st.add(x)
        st.facts.pop(('clean',) + x, None)
        return st

    def evidence_changed(self, eng, st, v):
        """the value observed for v is another one"""
        if contains_tag(v, ('top',)):
            return st
        nv = self.node_of(eng, st, v)
        return self.open_em(eng, st, nv, outgoing=True)

    def open_em(self, eng, st, nv, outgoing):
        C = ('F', deref(nv), self.r.f['disabled'])
        keys = []
        for kd in eng.kinds(st, C):
            if kd[0] == 'base':
                if st.facts.get(('empty', C)) is not True:
                    keys.append(('all', C))
            else:
                k = st.facts.get(('ent', C, kd[1]))
                if k is not None:
                    keys.append(k)
        for k in keys:
            st = self.dirty(st, ('em', k, nv) if outgoing else ('em', nv, k))
        return st

    def on_mut(self, eng, st, C, op, key, node, fr):
        if self.local(C):
            return st
        role, b = self.role(C)
        if role is None:
            return st
        self.ev(role, op, node, fr)
        if role in self.CHANGE or role in self.REG:
            st = self.changed(eng, st, role, node, fr)
        if role == 'unaries':
            st = self.open_mu(eng, st, addr(b))
        elif role in ('active', 'disabled'):
            nv = addr(b)
            if role == 'disabled':
                st = self.open_mu(eng, st, nv)
                if op == 'insert':
                    st = self.dirty(st, ('em', nv, key))
                else:
                    st = self.clean(st, ('em', nv, key))
            else:
                st = self.dirty(st, ('conn', self.at(node, fr)))
            st = self.half(eng, st, role, op, nv, key, node, fr)
        elif role == 'cnodes':
            st = self.dirty(st, ('conn', self.at(node, fr)))
        elif role == 'clusters':
            if op in ('erase', 'assign', 'clear'):
                st = st.drop(lambda x: x[0] == 'conn')
        elif role == 'evidences':
            if op == 'insert':
                st = self.evidence_changed(eng, st, key)
            elif op == 'erase':
                nv = self.node_of(eng, st, key)
                st = self.open_em(eng, st, nv, outgoing=False)
                st = self.open_mu(eng, st, nv)
        return st

    def half(self, eng, st, role, op, a, b, node, fr):
        if b is None or 'half' not in self.track:
            return st
        o = ('half', role, op, b, a)
        if o in st.cs:
            return st.drop(lambda x: x == o)
        return st.add(('half', role, op, a, b))

    def opq_call(self, eng, st, f, this, args, node, fr):
        if self.sums is not None and self.sums.boundary(f) and this == ('O', 'this'):
            return self.boundary_call(eng, st, f, this, args, node, fr)
        if self.sums is not None and self.sums.cg.may_throw(f['c']):
            eng.throws[-1].append((st, node))
        if f.get('cls', '') and f['cls'].startswith('EFG::factor::') and not f.get('cst') and not f.get('ctor') \
                and not f.get('st') and this is not None and not self.local(this) and f['n'] != 'functionMutable':
            self.ev('weight', f['n'], node, fr)
            st = self.changed(eng, st, 'weight', node, fr)
            # everything computed from the images is outdated
            C = self.nodesC()
            nv = ('ld', ('E', C, ('all', C)))
            st = self.dirty(st, ('mu', nv))
            D = ('F', deref(nv), self.r.f['disabled'])
            st = self.dirty(st, ('em', nv, ('all', D)))
        return st

    def boundary_call(self, eng, st, f, this, args, node, fr):
        """effect of a public operation, analysed on its own"""
        sm = self.sums.get(f)
        at = self.at(node, fr)
        if sm.throws:
            t = st
            if sm.throw_mut:
                t = t.add(('mut', 'call ' + f['n'], at)) if 'mut' in self.track else t
            eng.throws[-1].append((t, node))
        st = st.copy()
        if sm.mut:
            for k in [k for k in st.env if root(k) == ('O', 'this')]:
                del st.env[k]
            for k in [k for k in st.facts if k[0] in ('in', 'empty', 'ents', 'ent', 'ver', 'rel')]:
                if mentions(k, ('O', 'this')):
                    del st.facts[k]
            if 'mut' in self.track:
                st = st.add(('mut', 'call ' + f['n'], at))
            st.facts.pop(('R',), None)
        if sm.R:
            st.facts[('R',)] = True
            st = st.drop(lambda x: x[0] == 'stale')
        R = ('call', f['q'], (fr.id, node['nid']))
        if T.is_ref(f['rt']):
            return [(st, ('LOC', ('D', R)))]
        if T.is_obj(f['rt']):
            loc = ('T', fr.id, node['nid'])
            st = st.copy()
            eng.clear_loc(st, loc)
            st.env[loc] = R
            return [(st, ('obj', loc))]
        return [(st, R)]

    def on_iter_end(self, eng, st, C, elem, node, fr):
        for x in [x for x in st.cs if x[0] == 'em' and (mentions(x[2], elem) or mentions(x[1], elem))]:
            o = self.observed(eng, st, x[2])
            if o is False or self.observed(eng, st, x[1]) is True:
                st = self.clean(st, x)
            elif o is True:
                st = st.drop(lambda y: y == x).add(('em!',) + x[1:])
        return st

    def on_loop(self, eng, st, C, node, fr):
        if self.role(C)[0] not in ('active', 'disabled', 'nodes', 'cnodes') and not self.local(C):
            return st
        syms = []
        for kd in eng.kinds(st, C):
            if kd[0] == 'base':
                if st.facts.get(('empty', C)) is not True:
                    syms.append(('all', C))
            else:
                v = st.facts.get(('ent', C, kd[1]))
                if v is None:
                    return st
                syms.append(v)
        if not syms:
            return st
        drop = []
        for x in st.cs:
            if x[0] not in ('mu', 'em'):
                continue
            for t in x[1:]:
                if t not in syms and st.facts.get(('in', C, t)) is True:
                    if all(st.facts.get(('clean',) + tuple(sy if y == t else y for y in x)) for sy in syms):
                        drop.append(x)
        return st.drop(lambda y: y in drop) if drop else st

    def axiom_found(self, eng, st, C):
        return self.role(C)[0] == 'clusters'

    def on_bad(self, eng, st, what, node, fr):
        if what[0] == 'unchecked':
            C, key = what[1], what[2]
            role, b = self.role(C)
            if role == 'nodes' and (eng.is_in(st, self.evid(st), key) is True or self.in_vars(key)):
                return st
            if role in ('active', 'disabled') and key is not None:
                if eng.is_in(st, ('F', deref(key), self.r.f[role]), addr(b)) is True:
                    return st
        k = (what[0], self.at(node, fr))
        self.bad.setdefault(k, (what, st))
        return st

    # ------------------------------------------------------------------- end
    def close(self, eng, st, f, exc=None):
        """obligations left at an exit: [(kind, detail, where)]"""
        out = []
        for x in st.cs:
            if x[0] == 'mu':
                if self.observed(eng, st, x[1]) is True or contains_tag(x, ('top',)):
                    continue
                out.append(x)
            elif x[0] == 'em':
                if self.observed(eng, st, x[2]) is not True or self.observed(eng, st, x[1]) is True or contains_tag(x, ('top',)):
                    continue
                out.append(x)
            else:
                out.append(x)
        return out


class Sum:
    def __init__(self):
        self.throws = self.throw_mut = self.mut = True
        self.R = False
        self.ok = False
        self.exits = self.thr = ()


class Sums:
    """summaries of the public operations (and of the propagation)"""

    def __init__(self, p, roles, track=('stale', 'mut'), budget=120000):
        self.p = p
        self.r = roles
        self.track = track
        self.budget = budget
        self.entries = [f for f in entry_points(p)]
        self.b = set(f['c'] for f in self.entries if not f.get('cst') and not f.get('ctor'))
        for f in p.funcs.values():
            if f.get('cls') in model_classes(p) and f['n'] == 'propagateBelief' and f.get('body'):
                self.b.add(f['c'])
                self.prop = f
        self.memo = {}
        self.cg = CGm.CG(p)
        R = roles.f
        self.rel = self.cg.writers([R[k] for k in ('state', 'variables', 'nodes', 'evidences', 'clusters', 'active', 'disabled',
                                                   'unaries', 'factors', 'belief', 'merged', 'constf', 'tunablef', 'tuners',
                                                   'cnodes', 'connectivity')])
        self.ms = model_classes(p)

    def skip(self, f):
        """functions without any effect on what is tracked"""
        return f['c'] not in self.rel and f.get('cls') not in self.ms and f['q'].startswith('EFG::') and \
            not f['q'].startswith(('EFG::Visitor', 'EFG::Cache', 'EFG::cast', 'EFG::detail')) and \
            'visitTuner' not in f['q'] and not any('lambda' in (x.get('t') or '') or 'std::function' in (x.get('t') or '') for x in f['params'])

    def boundary(self, f):
        return f['c'] in self.b

    def get(self, f):
        m = self.memo.get(f['c'])
        if m is None:
            m = self.memo[f['c']] = Sum()  # recursion: anything may happen
            c = StructClient(self.p, self.r, self.track, self)
            e = G.Eng(self.p, c, budget=self.budget)
            cap = CAP[0]
            try:
                ex, th = e.run(f)
            except G.Budget:
                CAP[0] = cap
                m.steps = e.steps
                m.client = c
                return m
            CAP[0] = cap
            m.ok = True
            m.exits, m.thr = ex, th
            m.mut = any(x[0] == 'mut' for s, _ in ex for x in s.cs)
            m.R = all(s.facts.get(('R',)) for s, _ in ex) and bool(ex)
            m.throws = bool(th)
            m.throw_mut = any(x[0] == 'mut' for s, _ in th for x in s.cs)
            m.eng, m.client, m.steps = e, c, e.steps
        return m
