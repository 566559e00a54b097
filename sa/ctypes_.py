"""Classification of (canonical) type strings."""
import functools

ITERS = ('std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator',
         'std::_Node_iterator', 'std::_Node_const_iterator',
         'std::_List_iterator', 'std::_List_const_iterator',
         '__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator',
         'std::_Rb_tree_const_iterator', 'std::_Deque_iterator',
         'std::reverse_iterator', 'std::move_iterator',
         'nlohmann::detail::iter_impl', 'std::back_insert_iterator')
SETS = ('std::unordered_set', 'std::set', 'std::multiset', 'std::unordered_multiset')
MAPS = ('std::unordered_map', 'std::map', 'std::multimap', 'std::unordered_multimap')
SEQS = ('std::vector', 'std::list', 'std::deque', 'std::array', 'std::forward_list',
        'std::initializer_list', 'std::queue', 'std::stack')
JSON = ('nlohmann::basic_json',)
SMART = ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr',
         'std::__shared_ptr_access')


@functools.lru_cache(maxsize=None)
def strip(t):
    t = (t or '').strip()
    ch = True
    while ch:
        ch = False
        for s in ('&&', '&'):
            if t.endswith(s):
                t = t[:-len(s)].strip()
                ch = True
        if t.endswith('*const'):
            t = t[:-5].strip()
            ch = True
        for s in ('const ', 'volatile ', 'class ', 'struct '):
            if t.startswith(s) and not t.endswith('*'):
                t = t[len(s):].strip()
                ch = True
    return t


@functools.lru_cache(maxsize=None)
def base(t):
    """template name without arguments"""
    t = strip(t)
    if t.endswith('*'):
        return '*'
    i = t.find('<')
    if i < 0:
        return t
    # nested name after the template arguments (e.g. X<..>::Y)
    d = 0
    for j in range(i, len(t)):
        if t[j] == '<':
            d += 1
        elif t[j] == '>':
            d -= 1
            if d == 0:
                rest = t[j + 1:]
                return t[:i] + rest if rest.startswith('::') else t[:i]
    return t[:i]


@functools.lru_cache(maxsize=None)
def targs(t):
    t = strip(t)
    i = t.find('<')
    if i < 0:
        return ()
    out = []
    d = 0
    cur = ''
    for ch in t[i + 1:]:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            if d == 0 and ch == '>':
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return tuple(out)


@functools.lru_cache(maxsize=None)
def kind(t):
    b = base(t)
    if b == '*' or b in SMART or b == 'std::nullptr_t':
        return 'ptr'
    if b in ITERS:
        return 'it'
    if b in SETS:
        return 'set'
    if b in MAPS:
        return 'map'
    if b in SEQS:
        return 'seq'
    if b in JSON:
        return 'json'
    if b == 'std::optional':
        return 'opt'
    if b == 'std::variant':
        return 'var'
    if b in ('std::pair', 'std::tuple'):
        return 'pair'
    if b == 'std::function' or '(lambda at' in b or b.startswith('(lambda'):
        return 'fn'
    if b in ('std::basic_string', 'std::basic_string_view'):
        return 'str'
    if b in ('std::nullopt_t',):
        return 'nullopt'
    if b in ('std::atomic', 'std::__atomic_base', 'std::atomic_bool'):
        return 'atomic'
    if b == 'EFG::Cache':
        return 'ptr'
    if b in ('bool', 'int', 'unsigned long', 'unsigned int', 'long', 'float', 'double',
             'char', 'unsigned char', 'void', 'short', 'unsigned short', 'long double',
             'unsigned long long', 'long long'):
        return 'num'
    if b.startswith('const char') or b.startswith('char['):
        return 'str'
    return 'rec'


OBJ = ('set', 'map', 'seq', 'json', 'opt', 'var', 'pair', 'rec')
CONT = ('set', 'map', 'seq', 'json')


def is_obj(t):
    return kind(t) in OBJ


def is_ref(t):
    return (t or '').rstrip().endswith('&')


def same(a, b):
    a, b = strip(a), strip(b)
    if a == b:
        return True
    n = lambda s: s.replace('__detail::', '').replace('_const_iterator', '_iterator').replace('const ', '')
    return n(a) == n(b)
