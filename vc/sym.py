"""Verification condition generator for the functions of /repo.

Walks the clang AST of a function (the compiler's own view of the current source), executes it symbolically
in continuation passing style and writes one Verus proof function per C++ function: every contract clause,
every precondition of a called function, every loop invariant and every possible undefined operation becomes
an assert.  Loops are cut by their invariant, calls to functions under contract by their contract, all other
calls of repository code are executed in place.
"""
import re, sys

# ------------------------------------------------------------------------------------------------- types
INTS = {'int': (-2**31, 2**31 - 1), 'unsigned int': (0, 2**32 - 1), 'unsigned': (0, 2**32 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
        'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1), 'char': (-128, 127), 'signed char': (-128, 127),
        'unsigned char': (0, 255), 'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1), 'size_t': (0, 2**64 - 1),
        'std::size_t': (0, 2**64 - 1), 'difference_type': (-2**63, 2**63 - 1), 'ptrdiff_t': (-2**63, 2**63 - 1), 'size_type': (0, 2**64 - 1),
        'time_t': (-2**63, 2**63 - 1), 'std::ptrdiff_t': (-2**63, 2**63 - 1)}
WN = {'int': 'i32w', 'unsigned int': 'u32w', 'unsigned': 'u32w', 'unsigned long': 'u64w', 'size_t': 'u64w', 'unsigned long long': 'u64w', 'std::size_t': 'u64w',
      'size_type': 'u64w', 'unsigned char': 'u8w', 'char': 'i8w', 'long': 'i64w', 'long long': 'i64w', 'signed char': 'i8w', 'difference_type': 'i64w'}
VT = {'int': 'int', 'bool': 'bool', 'D': 'D', 'str': 'Seq<int>', 'ref': 'int', 'iter': 'int'}


def norm(t):
    t = t.replace('CppLisp::', '').replace('std::__cxx11::', 'std::')
    t = re.sub(r'\b(const|volatile|class|struct|enum)\b ?', '', t).strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    t = re.sub(r'\s+', ' ', t)
    return t


def ctype(n):
    t = n.get('type', {}) if 'kind' in n else n
    return t.get('desugaredQualType') or t.get('qualType', '')


STRS = ('string', 'std::string', 'std::basic_string<char>', 'basic_string<char>', 'basic_string<char, char_traits<char>, allocator<char>>',
        'basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'char *', '__cxx11::basic_string<char>',
        'std::basic_string')


def mty(t, db=None):
    t = norm(t)
    if t == 'bool' or t == '_Bool' or t == 'vector<bool>::reference' or t == 'std::_Bit_reference':
        return 'bool'
    if t in INTS:
        return 'int'
    if t in ('double', 'float', 'long double'):
        return 'D'
    if t == 'void':
        return 'void'
    if t in STRS or re.match(r'char ?\[\d*\]$', t):
        return 'str'
    if re.search(r'(::|^)(const_)?(reverse_)?iterator$', t) or '__normal_iterator' in t or '_Rb_tree_iterator' in t or '_Rb_tree_const_iterator' in t or 'reverse_iterator<' in t:
        return 'iter'
    if t == 'nullptr_t' or t == 'std::nullptr_t':
        return 'ref'
    if db and t.split('::')[-1] in db.enums:
        return 'int'
    return 'ref'


def irange(t, db=None):
    t = norm(t)
    if t in INTS:
        return INTS[t]
    return None


def cls_of_type(t):
    """class behind a type: shared_ptr<T>, T*, T&, T  ->  T"""
    t = norm(t)
    m = re.match(r'(?:std::)?shared_ptr<(?:_NonArray<)?(.*?)>?>$', t)
    if m:
        return cls_of_type(re.match(r'(?:std::)?shared_ptr<(.*)>$', t).group(1))
    m = re.match(r'_NonArray<(.*)>$', t)
    if m:
        return cls_of_type(m.group(1))
    m = re.match(r'(?:std::)?__shared_ptr(?:_access)?<([^,<>]*?)(?:, .*)?>$', t) or re.match(r'(?:std::)?__shared_ptr(?:_access)?<(.*?), .*>$', t)
    if m:
        return cls_of_type(m.group(1))
    if t.endswith('*'):
        return cls_of_type(t[:-1].strip())
    return t


def is_ptr(t):
    t = norm(t)
    return t.endswith('*') or t.startswith('std::shared_ptr<') or t.startswith('shared_ptr<') or 'nullptr_t' in t


def is_vec(c):
    return bool(re.match(r'(std::)?(vector|IEnumerable|initializer_list|stack)<', c))


def is_map(c):
    return bool(re.match(r'(std::)?(map|Dictionary)<', c)) or c == 'LispScope'


def targs(c):
    i = c.index('<')
    s = c[i + 1:c.rindex('>')]
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<':
            d += 1
        if ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def cid(c):
    return re.sub(r'[^A-Za-z0-9_]+', '_', c.split('::')[-1] if '<' not in c else c)


class Break(Exception):
    """the function can not be brought within the reach of the generator (extraction break)"""
    hard = False


class HardBreak(Break):
    """a break that can not be turned into the obligation that the place is not reached"""
    hard = True


class V:
    __slots__ = ('t', 'ty', 'ct', 'x')

    def __init__(self, t, ty, ct='', x=None):
        self.t, self.ty, self.ct, self.x = t, ty, ct, x

    def __repr__(self):
        return 'V(%s:%s)' % (self.t, self.ty)


class LV:
    """kinds: cell(id) / field(name, addr) / elem(vecfield, addr, idx) / chr(LV of string, idx) / mapv(addr, key)"""
    __slots__ = ('k', 'a', 'ty', 'ct')

    def __init__(self, k, a, ty, ct):
        self.k, self.a, self.ty, self.ct = k, a, ty, ct

    def __repr__(self):
        return 'LV(%s,%s:%s)' % (self.k, self.a, self.ty)


class St:
    __slots__ = ('env', 'h', 'root')

    def __init__(self, env, h, root):
        self.env, self.h, self.root = env, h, root

    def w(self, cell, v):
        e = dict(self.env)
        e[cell] = v
        return St(e, self.h, self.root)

    def wh(self, h):
        return St(self.env, h, self.root)


class Frame:
    def __init__(self, fn, tu, this, parent=None):
        self.fn, self.tu, self.this = fn, tu, this
        self.vars = dict(parent.vars) if parent else {}
        self.names = dict(parent.names) if parent else {}
        self.loops = {}
        self.params = []
        self.caps = {}


class Ctx:
    __slots__ = ('f', 'ret', 'thr', 'brk', 'cnt', 'exc')

    def __init__(self, f, ret, thr, brk=None, cnt=None, exc=None):
        self.f, self.ret, self.thr, self.brk, self.cnt, self.exc = f, ret, thr, brk, cnt, exc

    def but(self, **kw):
        c = Ctx(self.f, self.ret, self.thr, self.brk, self.cnt, self.exc)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


class Contract:
    def __init__(self, name, types=None, nparams=None, requires=(), ensures=(), result=None, raises=(), modifies=(), mode='alloc',
                 loops=None, hints=None, exact=True, trusted=False, wf=True, ensures_raise=(), resty=None, lam=None, note='', out=(), dec=None, smoke=True,
                 rlimit=30, havoc_ok=False, fresh=False, key=None, tags=(), owner=None, cut=None, at=None, outp=(), part=0):
        self.name, self.types, self.nparams = name, types, nparams
        self.requires, self.ensures, self.result = list(requires), list(ensures), result
        # raises: list of (kinds tuple, cond or None)
        self.raises = [((k,) if isinstance(k, str) else tuple(k), c) for k, c in raises]
        self.modifies, self.mode, self.loops, self.hints = list(modifies), mode, loops or {}, hints or {}
        self.exact, self.trusted, self.wf, self.ensures_raise, self.resty = exact, trusted, wf, list(ensures_raise), resty
        self.lam, self.note, self.out, self.dec, self.smoke, self.rlimit = lam, note, out, dec, smoke, rlimit
        self.key = key or name
        self.tags = tags
        self.cut = cut
        self.part = part         # obligations in one file (0: the usual number)
        self.outp = outp         # pointer parameters that receive a value when not null
        self.at = at or {}       # hints at the calls of other functions under contract


HIER = {'LispException': ['LispExceptionBase'], 'LispExceptionBase': [], 'LispStopDebuggerException': [], 'Exception': [],
        'std::exception': [], 'std::out_of_range': ['std::exception'], 'std::invalid_argument': ['std::exception']}


def is_a(k, c):
    if k == c:
        return True
    return any(is_a(b, c) for b in HIER.get(k, []))


# ------------------------------------------------------------------------------------------------ engine
class Engine:
    MAXPATH = 3000

    def __init__(self, db, contracts, spec, opts=None):
        self.db = db
        self.contracts = contracts          # list of Contract
        self.spec = spec
        self.cmap = {}
        self.lams = {c.lam: c for c in contracts if c.lam is not None}     # contracts for calls of function objects, by type
        for c in contracts:
            if c.lam is None:
                for f in self.resolve(c, quiet=True):
                    self.cmap[(f.qname, f.type)] = c
        self.lit = {}                       # string literals -> name
        self.fields = {}                    # heap field -> verus map type
        self.field('alloc', 'int')
        self.field('cls', 'Map<int,int>')
        self.dlits = {}
        self.fnames = {}
        self.globals = {}
        self.used_contracts = set()
        self.inlined = set()
        self.trusted_lib = set()
        if not hasattr(db, 'enums'):
            db.enums = set()
            db.enumc = {}
            for t in db.tus.values():
                for i, n in t.decl.items():
                    if n['kind'] == 'EnumDecl':
                        if n.get('name'):
                            db.enums.add(n['name'])
                        v = -1
                        for c in n.get('inner', ()):
                            if c['kind'] == 'EnumConstantDecl':
                                x = self._constint(c)
                                v = x if x is not None else v + 1
                                db.enumc[c['name']] = v

    def _constint(self, n):
        st = [n]
        while st:
            x = st.pop()
            if x.get('kind') == 'ConstantExpr' and 'value' in x:
                return int(x['value'])
            if x.get('kind') == 'IntegerLiteral':
                return int(x['value'])
            st.extend(x.get('inner', ()))
        return None

    def resolve(self, c, quiet=False):
        m = re.match(r'(.*)::lambda:(\d+)$', c.name)
        if m:
            r = [f for f in (self.db.lambda_fn(g, int(m.group(2))) for g in self.db.find(m.group(1), c.nparams, None)) if f]
            if not r and not quiet:
                raise HardBreak('function under contract not found: %s' % c.name)
            return r
        r = self.db.find(c.name, c.nparams, c.types)
        if c.cut:
            r = [f for f in r if c.cut(f)]
        if not r and not quiet:
            raise HardBreak('function under contract not found: %s' % c.name)
        return r

    # ---------------------------------------------------------------- emission
    def field(self, name, t):
        if name not in self.fields:
            self.fields[name] = t
        return name

    def reset(self, contract):
        self.lines = []
        self.ind = 1
        self.nfresh = 0
        self.params = []
        self.reqs = []
        self.quiet = 0
        self.obl = []           # (line index, label)
        self.npaths = 0
        self.rec = []
        self.cells = 0
        self.con = contract
        self.exits = 0
        self.stack = []
        self.loopno = {}

    def out(self, s):
        if not self.quiet:
            self.lines.append('    ' * min(self.ind, 12) + s)

    def fresh(self, base, vt):
        self.nfresh += 1
        base = re.sub(r'\W', '_', base)
        n = '%s_%d' % (base, self.nfresh)
        if not self.quiet:
            self.params.append((n, vt))
        return n

    def req(self, s):
        if not self.quiet:
            self.reqs.append(s)

    def freshv(self, base, t, ct=None):
        """fresh value of a C++ type with its range facts"""
        ty = mty(t, self.db)
        n = self.fresh(base, VT.get(ty, 'int'))
        r = irange(t)
        if r:
            self.req('%d <= %s <= %d' % (r[0], n, r[1]))
        elif ty == 'int':
            pass
        elif ty == 'ref':
            self.req('0 <= %s' % n)
        return V(n, ty, ct or t)

    def let(self, base, term, vt=None):
        if re.match(r'^[A-Za-z_0-9]+$', term):
            return term
        self.nfresh += 1
        n = '%s_%d' % (re.sub(r'\W', '_', base), self.nfresh)
        self.out('let %s = %s;' % (n, term))
        return n

    def check(self, cond, label, hint=None):
        if cond == 'true':
            return
        if not self.quiet:
            self.out('assert(%s)%s; //OBL %s' % (cond, hint or '', label))
            self.obl.append(label)

    def guard(self, cond, k):
        """continue under an assumption"""
        if cond in ('true', None):
            k()
            return
        self.out('if %s {' % cond)
        self.ind += 1
        k()
        self.ind -= 1
        self.out('}')

    def branch(self, cond, kt, kf):
        c = cond.strip()
        if c == 'true':
            return kt()
        if c == 'false':
            return kf()
        self.npaths += 1
        if self.npaths > self.MAXPATH:
            raise HardBreak('too many paths in %s' % self.con.name)
        self.out('if %s {' % cond)
        self.ind += 1
        kt()
        self.ind -= 1
        self.out('} else {')
        self.ind += 1
        kf()
        self.ind -= 1
        self.out('}')

    # ---------------------------------------------------------------- heap
    def hset(self, st, upd, log=True):
        for f in upd:
            self.record(('heap', f))
        t = 'H { %s, ..%s }' % (', '.join('%s: %s' % (f, x) for f, x in upd.items()), st.h)
        return st.wh(self.let('h', t))

    def record(self, w):
        for r in self.rec:
            r.add(w)

    def alloc(self, st, cls):
        k = self.clsk(cls)
        a = self.let('a', '%s.alloc' % st.h)
        st = self.hset(st, {'alloc': '%s + 1' % a, 'cls': '%s.cls.insert(%s, %s)' % (st.h, a, k)})
        return a, st

    def clsk(self, cls):
        c = cls
        if is_vec(c):
            n = 'K_vec'
        elif c.startswith('Dictionary<') or c.startswith('std::map<'):
            n = 'K_map_' + ('str' if mty(targs(c)[0]) == 'str' else 'var')
        else:
            n = 'K_' + cid(c)
        self.fnames.setdefault(n, len(self.fnames) + 1)
        return n + '()'

    def vecf(self, c):
        """heap field of the contents of a container"""
        if is_vec(c):
            e = mty(targs(c)[0], self.db)
            return self.field({'ref': 'vec', 'int': 'vec', 'bool': 'vecb', 'str': 'vecs', 'D': 'vecd'}[e], 'Map<int,Seq<%s>>' % VT[e]), targs(c)[0]
        raise Break('no container: %s' % c)

    def mapf(self, c):
        if c == 'LispScope':
            return self.field('map_str', 'Map<int,Map<Seq<int>,int>>'), 'string', 'std::shared_ptr<object>'
        k, v = targs(c)[:2]
        kt, vt = mty(k, self.db), mty(v, self.db)
        n = 'map_' + ('str' if kt == 'str' else 'var' if kt == 'ref' else kt)
        return self.field(n, 'Map<int,Map<%s,%s>>' % (VT[kt], VT[vt])), k, v

    def deref_ok(self, st, p, cls, label):
        """obligation: p points to a living object of the class"""
        if cls is None:
            return
        if p in ('self_',):
            pass
        kc = self.clsk(cls)
        if kc == 'K_map_str()':      # a scope is a map
            self.clsk('LispScope')
            self.check('(ok(%s, %s, %s) || ok(%s, %s, K_LispScope()))' % (st.h, p, kc, st.h, p), label)
        else:
            self.check('ok(%s, %s, %s)' % (st.h, p, kc), label)
        self.node(st, p)

    def node(self, st, p):
        if self.spec.get('node'):
            self.out('assert(nk(%s, %s));' % (st.h, p))

    # ---------------------------------------------------------------- lvalues
    def load(self, x, st):
        if isinstance(x, V):
            return x
        if x.k == 'cell':
            v = st.env.get(x.a)
            if v is None:
                raise Break('read of an unset variable')
            return v
        if x.k == 'field':
            f, a = x.a
            return V('%s.%s[%s]' % (st.h, f, a), x.ty, x.ct)
        if x.k == 'elem':
            f, a, i = x.a
            return V('%s.%s[%s][%s]' % (st.h, f, a, i), x.ty, x.ct)
        if x.k == 'chr':
            s = self.load(x.a[0], st)
            return V('%s[%s]' % (paren(s.t), x.a[1]), 'int', 'char')
        if x.k == 'mapv':
            f, a, key = x.a
            return V('%s.%s[%s][%s]' % (st.h, f, a, key), x.ty, x.ct)
        raise Break('load %r' % x)

    def store(self, x, v, st, why=''):
        if isinstance(x, V):
            if x.x and isinstance(x.x, tuple) and x.x[0] == 'lv':
                return self.store(x.x[1], v, st)
            raise Break('store to a value %r' % x)
        if x.k == 'cell':
            self.record(('cell', x.a))
            return st.w(x.a, v)
        if x.k == 'field':
            f, a = x.a
            return self.hset(st, {f: '%s.%s.insert(%s, %s)' % (st.h, f, a, v.t)})
        if x.k == 'elem':
            f, a, i = x.a
            return self.hset(st, {f: '%s.%s.insert(%s, %s.%s[%s].update(%s, %s))' % (st.h, f, a, st.h, f, a, i, v.t)})
        if x.k == 'mapv':
            f, a, key = x.a
            return self.hset(st, {f: '%s.%s.insert(%s, %s.%s[%s].insert(%s, %s))' % (st.h, f, a, st.h, f, a, key, v.t)})
        if x.k == 'chr':
            s = self.load(x.a[0], st)
            return self.store(x.a[0], V('%s.update(%s, %s)' % (paren(s.t), x.a[1], v.t), 'str'), st)
        raise Break('store %r' % x)

    def newcell(self):
        self.cells += 1
        return self.cells

    def short(self, v, base='t'):
        """name a long term"""
        if len(v.t) > 40:
            return V(self.let(base, v.t), v.ty, v.ct, v.x)
        return v

    # ---------------------------------------------------------------- literals
    def strlit(self, s):
        if s == '':
            return 'Seq::<int>::empty()'
        if s not in self.lit:
            self.lit[s] = 'S%d_%s' % (len(self.lit) + 1, re.sub(r'[^A-Za-z0-9]+', '_', s)[:20])
        return self.lit[s] + '()'

    def dlit(self, x):
        x = repr(float(x))
        if float(x) == int(float(x)) and abs(float(x)) < 1e9:
            return 'd_of(%dint)' % int(float(x))
        n = 'DL_' + re.sub(r'\W', '_', x)
        self.dlits[n] = x
        return n + '()'


def paren(t):
    return t if re.match(r'^[\w.\[\]()]+$', t) and t.count('(') == t.count(')') else '(' + t + ')'


def unescape(s):
    # C string literal as printed by clang
    s = s[1:-1] if s.startswith('"') else s
    out, i = [], 0
    m = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11}
    b = s
    while i < len(b):
        if b[i] == '\\':
            if b[i + 1] in m and not b[i + 1].isdigit():
                out.append(m[b[i + 1]])
                i += 2
                continue
            if b[i + 1] == 'x':
                j = i + 2
                while j < len(b) and b[j] in '0123456789abcdefABCDEF':
                    j += 1
                out.append(int(b[i + 2:j], 16))
                i = j
                continue
            j = i + 1
            while j < len(b) and j < i + 4 and b[j] in '01234567':
                j += 1
            out.append(int(b[i + 1:j], 8))
            i = j
            continue
        out.append(ord(b[i]))
        i += 1
    return ''.join(chr(c) for c in out)
