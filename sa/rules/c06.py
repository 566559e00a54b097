"""Invalid arguments are refused: for every constructor / operation listed, the conditions
tested along each path that completes (calls inlined, loops generalised) have to imply
the validity of the arguments."""
import sym as S
import flow as F
import guards as G
from guards import is_, has, lt, eq, ne, ne0, ge0

NUM = lambda t: 'unsigned long' in t and 'vector' not in t
VEC = lambda t: 'vector' in t
STR = lambda t: 'basic_string' in t
VAR = lambda t: 'shared_ptr<EFG::categoric::Variable>' in t and 'vector' not in t
VARS = lambda t: 'vector<std::shared_ptr<EFG::categoric::Variable' in t
FLT = lambda t: t.replace('const ', '') in ('float', 'double')
GRP = lambda t: 'EFG::categoric::Group' in t


def mem_of(field):
    return lambda x: x[0] == 'mem' and x[2] == field


def sizeof(pred):
    return lambda x: x[0] == 'size' and pred(x[1])


def anysize(x):
    return x[0] == 'size'


def groupsize(x):
    return x[0] == 'size' and S.any_t(x, lambda y: y[0] == 'mem' and y[2] in ('variables_', 'group'))


def elem(t):
    return lambda x: x[0] == 'ix' and x[1] == t and x[2][0] == 'b'


def run(p, rep):
    nm = G.Names(p)
    vs, vn = nm.vsize, nm.vname
    rep.rule('R1', 'every path on which the operation completes has tested the listed condition (loops: for all the elements)')

    def size_of_var(pred=None):
        def ok(x):
            if x[0] == 'pick':
                return ok(x[3])
            return x[0] == 'mem' and x[2] == vs and (pred is None or pred(x[1]))
        return ok

    def name_of(pred=None):
        return lambda x: x[0] == 'mem' and x[2] == vn and (pred is None or pred(x[1]))

    done = set()

    def each(q, goals, sel=lambda f: True, need=True, keep=(), ctor=False):
        n = 0
        for f in p.fns(q):
            if not f.get('body') or f.get('implicit') or not sel(f):
                continue
            gs = goals(f)
            if not gs:
                continue
            n += 1
            rep.fn(f)
            t, fl, ex = G.exits(p, f, keep)
            if not ex:
                rep.und('R1', (f['file'], f['l']), f['q'] + ' never completes')
                continue
            G.check(rep, 'R1', f, ex, gs)
        if not n and need:
            rep.missing(q)

    P = G.param
    # ---------------------------------------------------------------- variables
    def g(f):
        s, n = P(f, NUM), P(f, STR)
        if not s or not n:
            return []
        return [G.G('the size is not null', ne0(is_(s)), (has(s),)),
                G.G('the name is not empty', lambda x, q: ne0(is_(('size', n)))(x, q) or ne(is_(n), lambda y: y[0] in ('str', 'list') and y[1:] in ((), ('',)))(x, q), (has(n),))]
    each('EFG::categoric::Variable::Variable', g)

    # ------------------------------------------------------------------- groups
    def g(f):
        v = P(f, VARS)
        if not v:
            return []
        return [G.G('the group is not empty', ne0(is_(('size', v))), (is_(('size', v)),)),
                G.G('the names are all different', uniq(v), (has(v), lambda x: x[0] == 'mem' and x[2] == vn))]

    def uniq(v):
        def ok(x, q):
            for op, a, b in G.pairs(x):
                if name_of()(a) and name_of()(b) and (S.has(a, v) or S.has(b, v)):
                    return op == '!=' and (not q or False not in [G.full(y) for y in q[:1]])
            # through a set / map of names: a size comparison or a failed insertion
            if S.any_t(x, lambda y: y[0] == 'inserted'):
                return True
            return None
        return ok
    each('EFG::categoric::Group::Group', g)

    def g(f):
        vs_ = [('p', i, a['n']) for i, a in enumerate(f['params']) if VAR(a.get('t') or '')]
        if not vs_:
            return []
        if len(vs_) == 1 and f.get('ctor'):
            return []
        out = []
        for v in (vs_ if not f.get('ctor') else vs_[1:]):
            out.append(G.G('%s has a name different from those of the group' % v[2],
                           ne(name_of(is_(v)), name_of()), (has(v), lambda x: x[0] == 'mem' and x[2] == vn)))
        return out
    each('EFG::categoric::Group::add', g)
    each('EFG::categoric::Group::Group', g)

    def g(f):
        v = P(f, VARS)
        if not v:
            return []
        return [G.G('the number of variables does not change', eq(is_(('size', v)), anysize), (has(v), is_(('this',)))),
                G.G('the sizes of the variables do not change', eq(size_of_var(elem(v)), size_of_var()), (has(v), mem_of(vs)), 1),
                G.G('the names are all different', uniq(v), (has(v), mem_of(vn)))]
    each('EFG::categoric::Group::replaceVariables', g)

    # ------------------------------------------------------------------ factors
    def g(f):
        c, v = P(f, VEC), P(f, FLT)
        if not c or not v:
            return []
        return [G.G('the value is not negative', ge0(is_(v)), (has(v),)),
                G.G('the combination has one value per variable', eq(is_(('size', c)), anysize), (is_(('size', c)), is_(('this',)))),
                G.G('every value is lower than the size of its variable', lt(elem(c), size_of_var()), (has(c), mem_of(vs)), 1)]
    each('EFG::factor::Mutable::set', g)

    def g(f):
        v = P(f, VAR)
        n = P(f, NUM)
        if not v or not n:
            return []
        return [G.G('the value is lower than the size of the variable', lt(is_(n), size_of_var(is_(v))), (has(n), mem_of(vs)))]
    each('EFG::factor::Indicator::Indicator', g)

    def g(f):
        d = P(f, lambda t: 'Function' in t)
        if not d:
            return []
        return [G.G('it refers to one variable', eq(lambda x: groupsize(x) and S.has(x, d), is_(S.lit(1))), (groupsize,))]
    each('EFG::factor::UnaryFactor::UnaryFactor', g)

    def binary(x, q):
        for op, a, b in G.pairs(x):
            if groupsize(a) and b == S.lit(2):
                return op == '=='
        return None
    for c in ('Evidence', 'MessageSUM', 'MessageMAP'):
        def g(f):
            b = P(f, lambda t: 'Immutable' in t or 'Distribution' in t)
            if not b or len(f['params']) < 2:
                return []
            return [G.G('the factor is binary', binary, (groupsize, has(b)))]
        each('EFG::factor::%s::%s' % (c, c), g)

    for c in ('SimplyCorrelatedTag', 'SimplyAntiCorrelatedTag'):
        # the functions made by the constructors of the factor
        ctor = [f for f in p.fns('EFG::factor::Factor::Factor') if any(c in (a.get('t') or '') for a in f['params'])]
        if not ctor:
            rep.missing('Factor(' + c + ')')
        for f in ctor:
            t, fl, ex = G.exits(p, f)
            made = [n.a['cls'] for n in evs(t) if n.a['ek'] == 'ctor' and 'Function' in n.a['cls']]
            for cls in made:
                for h in p.fns(cls + '::' + cls.split('::')[-1]):
                    if h.get('body') and P(h, GRP) and not h.get('implicit'):
                        v = P(h, GRP)
                        t2, fl2, ex2 = G.exits(p, h)
                        rep.fn(h)
                        G.check(rep, 'R1', h, ex2, [
                            G.G('there is more than one variable', lambda x, q: (True if ne(lambda y: anysize(y) and S.has(y, v), is_(S.lit(1)))(x, q) else
                                lt(is_(S.lit(1)), lambda y: anysize(y) and S.has(y, v))(x, q)), (lambda y: anysize(y) and S.has(y, v),)),
                            G.G('the variables have the same size', eq(size_of_var(lambda y: S.any_t(y, lambda z: z[0] == 'b')), size_of_var()), (mem_of(vs), has(v)), 1)])

    def g(f):
        v = P(f, lambda t: 'vector<const EFG::factor::Immutable' in t)
        return [G.G('some factors are passed', ne0(is_(('size', v))), (is_(('size', v)),))] if v else []
    each('EFG::factor::Factor::Factor', g)

    def g(f):
        v = P(f, GRP)
        return [G.G('the new order is a permutation of the variables',
                    eq(lambda x: not anysize(x) and S.has(x, v), lambda x: not anysize(x) and S.has(x, ('this',))), (has(v), is_(('this',))),
                    known=lambda x: bool(G.pairs(x)) and all(anysize(a) and anysize(b) for _, a, b in G.pairs(x)))] if v else []
    each('EFG::factor::Factor::cloneWithPermutedGroup', g)

    def g(f):
        v = P(f, VARS)
        if not v:
            return []
        def sub(x, q):
            if x[0] == 'anyi' and q and S.has(x, v):
                return True
            if x[0] == 'in' and q and S.has(x, v):
                return True
            return None
        return [G.G('every variable of the factor is in the bigger group', sub, (has(v),), 1)]
    each('EFG::factor::ImageFinder::ImageFinder', g)

    # ---------------------------------------------------------------- evidences
    def g(f):
        n, v, s = P(f, NUM), P(f, VAR), P(f, STR)
        who = v or s
        if not n or not who:
            return []
        return [G.G('the value is lower than the size of the variable', lt(is_(n), size_of_var(lambda y: S.has(y, who) or not v)), (has(n), mem_of(vs))),
                G.G('the variable is in the model', lambda x, q: True if x[0] in ('in', 'anyi') and S.has(x, who) else None, ())]
    each('EFG::strct::EvidenceSetter::setEvidence', g)

    def g(f):
        c = P(f, VEC)
        return [G.G('one value is passed for every observed variable', eq(is_(('size', c)), anysize), (is_(('size', c)),)),
                G.G('every value is lower than the size of its variable', lt(elem(c), size_of_var()), (has(c), mem_of(vs)), 1)] if c else []
    each('EFG::model::ConditionalRandomField::setEvidences', g)

    def g(f):
        return [G.G('the source has some evidence', ne0(lambda x: x[0] == 'size' and S.any_t(x, lambda y: y[0] == 'mem' and 'evidence' in y[2])), ())]
    each('EFG::model::ConditionalRandomField::ConditionalRandomField', g, keep=('absorbConstFactors', 'absorbTunableClusters', 'setEvidence'))

    # ----------------------------------------------------------------- training
    def g(f):
        c = P(f, VEC)
        if not c:
            return []
        return [G.G('the set is not empty', ne0(is_(('size', c))), (is_(('size', c)),)),
                G.G('the combinations have the same size', eq(lambda x: anysize(x) and elem(c)(x[1]), lambda x: not S.is_num(x)), (lambda x: anysize(x) and elem(c)(x[1]),), 1)]
    each('EFG::train::TrainSet::TrainSet', g)

    def g(f):
        v = P(f, FLT)
        if not v:
            return []
        return pct(v, strict=True)

    def pct(v, strict):
        def low(x, q):
            for op, a, b in G.pairs(x):
                if b == v and S.is_num(a) and op in ('<', '<='):
                    return a[1] > 0 or a[1] == 0 and (op == '<' or not strict)
                if op == '==' and v in (a, b):
                    return True
            return None

        def up(x, q):
            for op, a, b in G.pairs(x):
                if a == v and S.is_num(b) and op in ('<', '<='):
                    return b[1] <= 1
                if op == '==' and v in (a, b):
                    return True
            return None
        plain = lambda x: bool(G.pairs(x)) and all({a, b} & {v} and (S.is_num(a) or S.is_num(b)) for _, a, b in G.pairs(x))
        return [G.G('the percentage is not negative', low, (has(v),), known=plain), G.G('the percentage is not greater than 1', up, (has(v),), known=plain)]
    each('EFG::train::TrainSet::Iterator::Iterator', g)

    def g(f):
        v = P(f, FLT)
        return pct(v, False) if v else []
    each('EFG::model::ConditionalRandomField::makeTrainSet', g, keep=('makeSamples', 'setEvidences', 'setEvidence'))

    def g(f):
        v = P(f, VEC)
        return [G.G('one weight is passed for every tunable cluster', eq(is_(('size', v)), anysize), (is_(('size', v)),))] if v else []
    each('EFG::train::FactorsTunableGetter::setWeights', g)

    def g(f):
        out = []
        for i, a in enumerate(f['params']):
            if 'Tuner' in (a.get('t') or '') and 'ptr' in (a.get('t') or ''):
                v = ('p', i, a['n'])
                out.append(G.G('%s is not null' % a['n'], G.isset(v), (has(v),)))
        return out
    each('EFG::train::CompositeTuner::addElement', g)

    def g(f):
        v = P(f, lambda t: 'LoopyBeliefPropagationStrategy' in t)
        return [G.G('the strategy is not null', G.isset(v), (has(v),))] if v else []
    each('EFG::strct::BeliefAware::setLoopyPropagationStrategy', g)

    # ------------------------------------------------------------- model factors
    def g(f):
        d = P(f, lambda t: 'shared_ptr' in t and 'factor::' in t)
        if not d:
            return []
        def num(x, q):
            for op, a, b in G.pairs(x):
                if groupsize(a) and S.has(a, d) and S.is_num(b):
                    return op == '==' and b[1] in (1, 2)
            return None
        return [G.G('the factor is not null', G.isset(d), (is_(('isset', d)),)),
                G.G('the factor is not already in the model', lambda x, q: True if x[0] == '!' and x[1][0] == 'in' and x[1][2] == d else None, ()),
                G.G('the factor has one or two variables', num, (lambda x: groupsize(x) and S.has(x, d),)),
                G.G('its first variable does not share the name with others of the model', same(d, True), (mem_of(vn), has(d)), ors=True, known=about(d, True)),
                G.G('its last variable does not share the name with others of the model', same(d, False), (mem_of(vn), has(d)), ors=True, known=about(d, False))]

    def about(d, first):
        """a fact that only tells about the name of the other variable of the factor"""
        def known(x):
            ns = [y[1] for y in S.all_t(x, lambda y: y[0] == 'mem' and y[2] == vn) if S.has(y, d)]
            return bool(ns) and all(y[0] == 'ix' and y[2] == S.lit(1 if first else 0) or first and y[0] == 'back' for y in ns)
        return known

    def same(d, first):
        def which(y):
            # variable of the factor
            if not S.has(y, d):
                return False
            if y[0] == 'ix' and y[2] in (S.lit(0), S.lit(1)):
                return (y[2] == S.lit(0)) == first
            return not first if y[0] == 'back' else True

        def ok(x, q):
            if not first and x[0] == 'rel' and x[1] == '==' and groupsize(x[2]) and S.has(x[2], d) and x[3] == S.lit(1):
                return True
            for y in S.all_t(x, lambda y: y[0] == 'rel' and y[1] == '=='):
                a, b = y[2], y[3]
                if name_of()(a) and name_of()(b) and (which(a[1]) or which(b[1])):
                    return True
            return None
        return ok
    K = ('absorbConstFactors',)
    each('EFG::strct::FactorsConstInserter::addConstFactor', g)
    each('EFG::train::FactorsTunableInserter::addTunableFactor', g)

    # -------------------------------------------------------------------- threads
    def g(f):
        n = P(f, NUM)
        return [G.G('the number of threads is not null', ne0(is_(n)), (has(n),))] if n else []
    each('EFG::strct::Pool::Pool', g)

    def g(f):
        return []


def evs(t):
    import model as M
    return [n for n in M.events(t) if n.k == 'ev']
