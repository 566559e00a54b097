"""Loads the resolved program of /repo: runs the AST extractor on every
translation unit (in parallel) and merges the result."""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('EFG_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EXTRACT = os.path.join(VERIF, 'bin', 'extract')


class AnalysisError(Exception):
    pass


class Prog:
    def __init__(self):
        self.funcs = {}       # key -> function
        self.records = {}     # qname(type) -> record
        self.by_q = {}        # qname -> [function]
        self.overriders = {}  # key -> set(keys) (transitive, incl. itself)
        self.units = []
        self.skipped = []
        self.nlambdas = 0

    # --------------------------------------------------------------- queries
    def enum_values(self, name):
        out = {}

        def v(n):
            if n.get('k') == 'enum' and name in (n.get('t') or ''):
                out[(n.get('n') or '').split('::')[-1]] = n.get('v')
        for f in self.funcs.values():
            walk([f.get('body'), f.get('inits')], v)
        return out

    def fns(self, q):
        return self.by_q.get(q, [])

    def fn(self, q):
        l = self.fns(q)
        return l[0] if l else None

    def record(self, q):
        for r in self.records.values():
            if r['q'] == q:
                return r
        return None

    def methods_of(self, cls):
        return [f for f in self.funcs.values() if f.get('cls') == cls]

    def bases(self, cls, acc=None):
        """all the (transitive) bases of cls, itself included"""
        out = [cls]
        r = self.record(cls)
        if r:
            for b in r['b']:
                if 'q' in b:
                    for x in self.bases(b['q']):
                        if x not in out:
                            out.append(x)
        return out


def units():
    out = []
    root = os.path.join(REPO, 'src', 'src')
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    out.sort()
    return out


def flags():
    return ['-std=c++17', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
            '-DEFG_JSON_IO=1', '-DEFG_XML_IO=1', '-DEFG_LEARNING_ENABLED=1',
            '-w', '-I' + os.path.join(REPO, 'src', 'header'),
            '-I' + os.path.join(VERIF, 'extract', 'stubs')]


OPTIONAL = ('/io/xml/', '/ModelTrainer.cpp', 'driver.cpp')


def walk(n, fn):
    """pre-order visit of all the dict nodes"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            fn(x)
            for v in x.values():
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    stack.append(v)


def load(only=None):
    if not os.path.exists(EXTRACT):
        subprocess.check_call([os.path.join(VERIF, 'extract', 'build.sh')])
    us = units() + [os.path.join(VERIF, 'extract', 'driver.cpp')]
    if only:
        us = [u for u in us if any(o in u for o in only)]
    if not us:
        raise AnalysisError('no translation unit found')
    tmp = tempfile.mkdtemp(prefix='efgsa')
    p = Prog()
    try:
        def one(iu):
            i, u = iu
            out = os.path.join(tmp, '%d.json' % i)
            r = subprocess.run([EXTRACT, os.path.join(REPO, 'src') + '/', out, u, '--'] + flags(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0 or not os.path.exists(out):
                return None, r.stdout.decode(errors='replace')[-2000:]
            return json.load(open(out)), ''
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(us)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for i, (u, (d, err)) in enumerate(zip(us, res)):
        if d is None:
            if any(o in u for o in OPTIONAL):
                p.skipped.append(u)
                continue
            raise AnalysisError('cannot parse %s:\n%s' % (u, err))
        p.units.append(u)
        ty = d['types']
        counter = [0]

        def fix(n):
            for k in ('t', 'tt', 'rt', 'clst', 'base'):
                v = n.get(k)
                if isinstance(v, int) and not isinstance(v, bool):
                    n[k] = ty[v] if v >= 0 else ''
            v = n.get('d')
            if isinstance(v, int):
                n['d'] = (i, v)
            if n.get('k'):
                counter[0] += 1
                n['id'] = n.get('id') or (i, counter[0])
                n['nid'] = (i, counter[0])
            if n.get('k') == 'lambda':
                p.nlambdas += 1
        walk(d['functions'], fix)
        walk(d['records'], fix)
        for f in d['functions']:
            k = f['c']
            f['tu'] = i
            if k in p.funcs:
                continue
            p.funcs[k] = f
            p.by_q.setdefault(f['q'], []).append(f)
        for r in d['records']:
            p.records.setdefault(r['t'], r)
    for f in p.funcs.values():
        seen = set()
        todo = list(f.get('ov') or [])
        p.overriders.setdefault(f['c'], set()).add(f['c'])
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            p.overriders.setdefault(o, set()).add(f['c'])
            if o in p.funcs:
                todo.extend(p.funcs[o].get('ov') or [])
    return p


def rel(path):
    pre = REPO.rstrip('/') + '/'
    return path[len(pre):] if path.startswith(pre) else path
