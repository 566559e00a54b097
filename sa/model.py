"""What the fields of a model stand for, on the terms of sym.py."""
import sym as S
import structs

ST = 'EFG::strct::'


class Model:
    def __init__(self, p):
        self.p = p
        self.R = structs.Roles(p)
        self.f = self.R.f
        self.ms = structs.model_classes(p)

    def belief(self, this=('this',)):
        return S.mem(this, self.f['belief'])

    def role(self, t):
        """role of a location; '[]' is appended for what is held by a container"""
        sfx = ''
        f = self.f
        while True:
            k = t[0]
            if k in ('ix', 'val', 'found', 'ent', 'back', 'find', 'findi'):
                t = t[1]
                sfx = '[]'
                continue
            if k == 'pick':
                t = t[3]
                continue
            if k in ('deref', 'addr'):
                t = t[1]
                continue
            if k == 'cond':
                a, b = self.role(t[2]), self.role(t[3])
                return a if a == b else (a or b)
            if k == 'new':
                if len(t) > 2:
                    t = t[2]
                    sfx = '[]'
                    continue
                return None
            if k == 'key':
                return None
            if k == 'mem':
                n, b = t[2], t[1]
                if b[0] == 'mem' and b[2] == f['state'] or b[0] == 'this' and n in (f['variables'],):
                    for r in ('variables', 'nodes', 'clusters', 'evidences'):
                        if f[r] == n:
                            return r + sfx
                if n == f['state'] and b == ('this',):
                    return 'state' + sfx
                if n == f['belief']:
                    return 'belief' + sfx
                for r in ('active', 'disabled', 'unaries', 'merged', 'factors', 'constf', 'tunablef', 'tuners',
                          'pool', 'connectivity', 'propagator'):
                    if f[r] == n:
                        return r + sfx
                rb = self.role(b)
                if rb in ('active[]', 'disabled[]') and n in (f['message'], f['cfactor']):
                    return rb[0] + ('message' if n == f['message'] else 'factor')
                if n == f['message'] and rb is None:
                    return 'message'
                if n == f['cnodes'] and (rb in ('clusters[]', None)):
                    return 'cnodes' + sfx
                if n == 'second' and rb:
                    return rb
                if n == 'first' and rb:
                    return None
                return None
            return None

    def entries(self):
        return structs.entry_points(self.p)


def events(n, out=None):
    """all the events of a tree"""
    if out is None:
        out = []
    k = n.k
    if k == 'ev' or k == 'throw' or k == 'ret':
        out.append(n)
    elif k == 'seq':
        for x in n.a['s']:
            events(x, out)
    elif k == 'if':
        events(n.a['a'], out)
        events(n.a['b'], out)
    elif k == 'loop':
        if n.a.get('pre'):
            events(n.a['pre'], out)
        events(n.a['body'], out)
    elif k == 'scope':
        events(n.a['b'], out)
    elif k == 'try':
        events(n.a['b'], out)
        for h in n.a['h']:
            events(h, out)
    return out


def sig(f):
    return '%s(%s)' % (f['q'], ', '.join((a.get('t') or '') for a in f['params']))
