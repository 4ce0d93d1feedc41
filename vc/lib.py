"""Model of the parts of the C++ standard library the code uses, and of the construction of objects.

The functions below are the trusted base: std::string is a sequence of characters, std::vector a sequence,
std::map a finite map, shared_ptr an address (life time of the pointed object not modelled), std::function a
reference to a known lambda or function.
"""
import re
from sym import *

EXC = ('LispException', 'LispExceptionBase', 'LispStopDebuggerException', 'Exception', 'std::exception', 'std::out_of_range', 'std::invalid_argument')
LEN = '0x7fff_ffff'
MATH = {'fabs': 'd_abs', 'fmod': 'd_mod'}
# library functions without effect of which only the type is known
OPAQUE = {'acos', 'asin', 'atan', 'ceil', 'cos', 'cosh', 'exp', 'floor', 'log', 'log10', 'pow', 'round', 'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'trunc'}


class Lib:
    # ------------------------------------------------------------------------------------------ assumptions
    def assume(self, cond):
        if not self.quiet:
            self.out('assume(%s);' % cond)
            self.nassume = getattr(self, 'nassume', 0) + 1

    def length(self, t):
        """length of a container or string: bounded by assumption"""
        r = '%s.len()' % paren(t)
        self.assume('%s <= %s' % (r, LEN))
        return V('(%s as int)' % r, 'int', 'unsigned long')

    # ------------------------------------------------------------------------------------------ objects
    def is_fn(self, t):
        t = norm(t)
        return t.startswith('std::function<') or t.startswith('function<') or t in ('FuncX', 'Action')

    def is_class(self, t):
        return mty(t, self.db) == 'ref' and not is_ptr(t) and not self.is_fn(t) and '(lambda' not in t and 'nullptr' not in t

    def recname(self, cls):
        cls = norm(cls)
        if cls in self.db.records:
            return cls
        s = cls.split('::')[-1] if '<' not in cls else cls
        if s in self.db.records:
            return s
        return None

    def fields_of(self, cls):
        """[(owner, name, type)] of all members, base classes included"""
        r = self.recname(cls)
        if r is None:
            raise Break('unknown class ' + cls)
        tu, n = self.db.records[r]
        out = []
        for b in n.get('bases', ()):
            bt = norm(ctype(b['type']) if 'kind' in b['type'] else (b['type'].get('desugaredQualType') or b['type']['qualType']))
            if is_vec(bt) or (is_map(bt) and bt != 'LispScope'):
                out.append((None, '__container', bt))
                continue
            if bt.startswith('std::') and not self.recname(bt):
                continue
            out += self.fields_of(bt)
        for f in self.inner(n):
            if f['kind'] == 'FieldDecl' and f.get('name'):
                out.append((r, f['name'], ctype(f)))
        return out

    def copy_obj(self, cls, src, st, c, k):
        """new object with the same contents (implicit copy constructor)"""
        cls = norm(cls)
        if is_vec(cls):
            f, et = self.vecf(cls)
            if self.is_class(et):
                raise Break('copy of a container of objects')
            a, st = self.alloc(st, cls)
            st = self.hset(st, {f: '%s.%s.insert(%s, %s.%s[%s])' % (st.h, f, a, st.h, f, src)})
            return k(V(a, 'ref', cls), st)
        if is_map(cls) and cls != 'LispScope':
            f, kt, vt = self.mapf(cls)
            a, st = self.alloc(st, cls)
            u = {f: '%s.%s.insert(%s, %s.%s[%s])' % (st.h, f, a, st.h, f, src)}
            if mty(kt, self.db) != 'str':       # the copies of the keys are not told from the keys: keys are never changed
                self.field(f + 'k', 'Map<int,Map<int,int>>')
                u[f + 'k'] = '%s.%sk.insert(%s, %s.%sk[%s])' % (st.h, f, a, st.h, f, src)
            st = self.hset(st, u)
            return k(V(a, 'ref', cls), st)
        if cls in EXC:
            return k(V(src, 'ref', cls), st)
        # a user written copy constructor
        short = cls.split('::')[-1]
        for fn in self.db.byname.get(cls + '::' + short, []):
            if len(fn.params) == 1 and norm(fn.params[0]['type']['qualType']) == short and not fn.params[0]['type']['qualType'].endswith('&&'):
                return self.run_ctor(cls, fn, [V(src, 'ref', cls, 'safe')], st, c, k)
        a, st = self.alloc(st, cls)
        fs = self.fields_of(cls)

        def go(i, s):
            if i == len(fs):
                return k(V(a, 'ref', cls), s)
            o, nm, t = fs[i]
            if nm == '__container':
                f = self.mapf(t)[0] if is_map(t) else self.vecf(t)[0]
                return go(i + 1, self.hset(s, {f: '%s.%s.insert(%s, %s.%s[%s])' % (s.h, f, a, s.h, f, src)}))
            lv = self.fieldlv(o, nm, V(a, 'ref'), t)
            sv = self.fieldlv(o, nm, V(src, 'ref'), t)
            if isinstance(lv, V):
                raise Break('copy of a union')
            if self.is_class(t):
                return self.copy_obj(norm(t), self.let('e', self.load(sv, s).t), s, c, lambda v, s2: go(i + 1, self.store(lv, v, s2)))
            go(i + 1, self.store(lv, self.load(sv, s), s))
        go(0, st)

    def run_ctor(self, cls, fn, args, st, c, k, at=None):
        ct = self.cmap.get((fn.qname, fn.type))
        if at is None:
            if ct is not None:
                a, st = self.alloc(st, cls)
                return self.apply(ct, fn, fn.node, V(a, 'ref', cls, 'safe'), args, st, c, lambda v, s: k(V(a, 'ref', cls), s))
            a, st = self.alloc(st, cls)
        else:
            a = at
        this = V(a, 'ref', cls, 'safe')
        self.inline(fn, this, args, st, c, lambda v, s: k(V(a, 'ref', cls), s),
                    init=lambda s, cc, k2: self.ctor_inits(fn, cc.f, s, cc, k2))

    def ctor_inits(self, fn, f, st, c, k):
        ins = [x for x in self.inner(fn.node) if x['kind'] == 'CXXCtorInitializer']
        this = f.this

        def go(i, s):
            if i == len(ins):
                return k(s)
            x = ins[i]
            ini = self.inner(x)
            if 'anyInit' in x:
                d = x['anyInit']
                dd = c.f.tu.decl.get(d['id'], d)
                t = ctype(dd) if 'type' in dd else d['type'].get('desugaredQualType') or d['type']['qualType']
                own = self.db.cls_of(c.f.tu, dd) if dd.get('id') in c.f.tu.owner else fn.cls
                e = ini[0]
                if e['kind'] == 'CXXDefaultInitExpr':
                    fi = [y for y in self.inner(dd) if not y['kind'].endswith('Comment')]
                    if not fi:
                        raise Break('default member initialiser')
                    e = fi[0]
                lv = self.fieldlv(own or fn.cls, d['name'], this, t)
                if isinstance(lv, V):
                    return go(i + 1, s)
                return self.rv(e, s, c, lambda v, s2: go(i + 1, self.store(lv, self.toty(v, lv.ty), s2)))
            if 'delegatingInit' in x:
                e = ini[0]
                while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                    e = self.inner(e)[0]
                return self.construct_at(fn.cls, e, this.t, s, c, lambda s2: go(i + 1, s2))
            if 'baseInit' in x:
                e = ini[0]
                while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                    e = self.inner(e)[0]
                bt = norm(ctype(e))
                if this.x and isinstance(this.x, tuple) and this.x[0] == 'lv' and mty(bt) == 'str':
                    return self.rv(e, s, c, lambda v, s2: go(i + 1, self.store(this.x[1], v, s2)))
                if is_vec(bt):
                    ff, et = self.vecf(bt)
                    return self.rv(e, s, c, lambda v, s2: go(i + 1, self.hset(s2, {ff: '%s.%s.insert(%s, %s.%s[%s])' % (s2.h, ff, this.t, s2.h, ff, v.t)})))
                if is_map(bt):
                    ff = self.mapf(bt)[0]
                    return go(i + 1, self.hset(s, {ff: '%s.%s.insert(%s, Map::empty())' % (s.h, ff, this.t)}))
                if bt.startswith('std::'):
                    return go(i + 1, s)
                return self.construct_at(bt, e, this.t, s, c, lambda s2: go(i + 1, s2))
            raise Break('constructor initialiser')
        go(0, st)

    def toty(self, v, ty):
        if ty == 'D' and v.ty == 'int':
            return V('d_of(%s)' % v.t, 'D')
        if ty == 'bool' and v.ty == 'int':
            return V('(%s != 0)' % v.t, 'bool')
        return v

    def construct_at(self, cls, e, addr, st, c, k):
        if e['kind'] not in ('CXXConstructExpr',):
            raise Break('base initialiser ' + e['kind'])
        fn = self.find_ctor(cls, e['ctorType']['qualType'])
        if fn is None:
            if not self.inner(e):
                return k(st)
            raise Break('constructor of base ' + cls)
        self.evargs(self.inner(e), fn.node, fn.tu, st, c, lambda av, s: self.run_ctor(cls, fn, av, s, c, lambda v, s2: k(s2), at=addr))

    def find_ctor(self, cls, ctype_):
        short = cls.split('::')[-1] if '<' not in cls else cls[:cls.index('<')].split('::')[-1]
        cand = self.db.byname.get(cls + '::' + short, [])
        if not cand:
            key = norm(cls).replace(' ', '')
            for q in self.db.byname:
                if q.endswith('::' + short) and '<' in q and q[:q.rindex('::')].replace('CppLisp::', '').replace(' ', '') == key:
                    cand = self.db.byname[q]
                    break
        w = norm2(ctype_)
        for f in cand:
            if norm2(f.type) == w:
                return f
        return None

    def e_CXXConstructExpr(self, n, st, c, k):
        t = ctype(n)
        ty = mty(t, self.db)
        args = self.inner(n)
        if ty == 'str':
            if not args:
                return k(V('Seq::<int>::empty()', 'str', t), st)
            ct = n.get('ctorType', {}).get('qualType', '')

            def ks(av, s):
                v = self.load(av[0], s)
                if v.ty == 'str' and len([a for a in args if a['kind'] != 'CXXDefaultArgExpr']) == 1:
                    return k(V(v.t, 'str', t), s)
                if v.ty == 'int' and len(args) == 1:
                    return k(V('seq![%s]' % v.t, 'str', t), s)
                if v.ty == 'int' and ct.startswith('void (size_type, char'):
                    y = self.load(av[1], s)
                    return k(V('Seq::new(%s as nat, |i: int| %s)' % (v.t, y.t), 'str', t), s)
                raise Break('string constructor ' + ct)
            return self.evs([a for a in args if a['kind'] != 'CXXDefaultArgExpr'], st, c, ks)
        if ty == 'iter':
            return self.ev(args[0], st, c, lambda x, s: k(self.load(x, s), s))
        if ty != 'ref':
            return self.ev(args[0], st, c, k) if args else k(self.default_value(t), st)
        if is_ptr(t) or self.is_fn(t) or '(lambda' in t:
            if not args:
                return k(V('0', 'ref', t), st)

            def kp(x, s):
                v = self.load(x, s)
                k(V(v.t if v.ty == 'ref' else '0', 'ref', t, v.x if v.x != 'safe' else None), s)
            return self.ev(args[0], st, c, kp)
        if n.get('elidable') and args:
            return self.ev(args[0], st, c, k)
        if norm(t).startswith('std::pair<') and len(args) == 1:
            def kpair(x, s):
                x = self.load(x, s)
                if isinstance(x.x, tuple) and x.x[0] == 'pairit':
                    ky, vl = self.load(self.pair_field(x, 'first', s), s), self.load(self.pair_field(x, 'second', s), s)
                    return k(V('0', 'ref', t, ('pairv', ky, vl)), s)
                if isinstance(x.x, tuple) and x.x[0] == 'pairv':
                    return k(x, s)
                raise Break('construction of a pair')
            return self.ev(args[0], st, c, kpair)
        return self.construct(norm(t), args, n.get('ctorType', {}).get('qualType', ''), st, c, k)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, cls, args, ctp, st, c, k):
        if cls in EXC:
            def ke(av, s):
                a, s2 = self.alloc(s, cls)
                k(V(a, 'ref', cls), s2)
            return self.evs([a for a in args if a['kind'] != 'CXXDefaultArgExpr'], st, c, ke)
        if not args and (is_vec(cls) or (is_map(cls) and cls != 'LispScope')):
            return k(*self.empty(cls, st))
        if is_vec(cls) and len(args) >= 1:
            a0 = args[0]

            def kc(x, s):
                v = self.load(x, s)
                if v.ty == 'int':       # IEnumerable(size_t capacity)
                    f, et = self.vecf(cls)
                    a, s2 = self.alloc(s, cls)
                    d = self.default_value(et)
                    s2 = self.hset(s2, {f: '%s.%s.insert(%s, Seq::new(%s as nat, |i: int| %s))' % (s2.h, f, a, v.t, d.t)})
                    return k(V(a, 'ref', cls), s2)
                if '&&' in ctp:         # the elements move to the new container
                    f, et = self.vecf(cls)
                    a, s2 = self.alloc(s, cls)
                    return k(V(a, 'ref', cls), self.hset(s2, {f: '%s.%s.insert(%s, %s.%s[%s])' % (s2.h, f, a, s2.h, f, v.t)}))
                self.copy_obj(cls, v.t, s, c, k)
            return self.ev(a0, st, c, kc)
        fn = self.find_ctor(cls, ctp) if ctp else self.find_ctor(cls, 'void ()')
        if fn is not None:
            return self.evargs(args, fn.node, fn.tu, st, c, lambda av, s: self.run_ctor(cls, fn, av, s, c, k))
        if not args:
            if self.recname(cls) is None:
                raise Break('construction of ' + cls)
            a, s = self.alloc(st, cls)
            return k(V(a, 'ref', cls), s)
        if len(args) == 1:
            return self.ev(args[0], st, c, lambda x, s: self.copy_obj(cls, self.load(x, s).t, s, c, k))
        raise Break('constructor of %s %s' % (cls, ctp))

    def empty(self, cls, st):
        a, st = self.alloc(st, cls)
        if is_vec(cls):
            f, et = self.vecf(cls)
            return V(a, 'ref', cls), self.hset(st, {f: '%s.%s.insert(%s, Seq::empty())' % (st.h, f, a)})
        f, kt, vt = self.mapf(cls)
        u = {f: '%s.%s.insert(%s, Map::empty())' % (st.h, f, a)}
        if mty(kt, self.db) != 'str':
            self.field(f + 'k', 'Map<int,Map<int,int>>')
            u[f + 'k'] = '%s.%sk.insert(%s, Map::empty())' % (st.h, f, a)
        return V(a, 'ref', cls), self.hset(st, u)

    def strobj(self, v, st):
        """a string on the heap (new std::string, shared_ptr<string>)"""
        a, st = self.alloc(st, 'string')
        f = self.field('strv', 'Map<int,Seq<int>>')
        return V(a, 'ref', 'string *'), self.hset(st, {f: '%s.strv.insert(%s, %s)' % (st.h, a, v.t)})

    def e_CXXNewExpr(self, n, st, c, k):
        t = ctype(n)
        cls = cls_of_type(t)
        ins = self.inner(n)
        if re.match(r'(std::)?shared_ptr<.*>\s*\*$', norm(t)):
            return self.rv(ins[0], st, c, lambda v, s: k(v, s))
        if mty(cls) == 'str':
            return self.rv(ins[0], st, c, lambda v, s: k(*self.strobj(v, s)))
        if self.is_fn(cls):
            return self.rv(ins[0], st, c, lambda v, s: k(v, s))
        e = ins[0]
        if e['kind'] == 'CXXConstructExpr':
            return self.construct(norm(cls), self.inner(e), e.get('ctorType', {}).get('qualType', ''), st, c, k)
        raise Break('new ' + cls)

    def e_CXXDeleteExpr(self, n, st, c, k):
        def kd(x, s):
            v = self.load(x, s)
            t = norm(ctype(self.inner(n)[0]))
            cls = cls_of_type(t)
            self.field('freed', 'Map<int,bool>')
            p = v.t
            if self.is_fn(cls) or re.match(r'(std::)?shared_ptr<.*>\s*\*$', t):
                # a function or shared_ptr behind a pointer: its memory is that of the object that holds the pointer
                if not (isinstance(x, LV) and x.k == 'field'):
                    raise Break('delete of ' + t)
                p = '(-%s)' % x.a[1]
                self.check('!%s.freed[%s]' % (s.h, p), '%s: memory is released once and as what it is' % self.where(c))
            else:
                self.check('%s == 0 || (0 < %s < %s.alloc && !%s.freed[%s] && %s.cls[%s] == %s)' % (p, p, s.h, s.h, p, s.h, p, self.clsk(cls if mty(cls) != 'str' else 'string')), '%s: memory is released once and as what it is' % self.where(c))
            k(V('0', 'void'), self.hset(s, {'freed': '%s.freed.insert(%s, true)' % (s.h, p)}))
        e = self.inner(n)[0]
        while e['kind'] in ('ImplicitCastExpr', 'ParenExpr') and e.get('castKind', 'LValueToRValue') == 'LValueToRValue':
            e = self.inner(e)[0]
        self.ev(e, st, c, kd)

    def assign_obj(self, x, y, st, c, k, t):
        """assignment of a class object"""
        if re.search(r'DataType$', norm(t)):    # a union: all of its members
            fs = [f for f in self.fields if f.startswith('DataType_')]
            a, b = self.load(x, st).t, self.load(y, st).t
            return k(x, self.hset(st, {f: '%s.%s.insert(%s, %s.%s[%s])' % (st.h, f, a, st.h, f, b) for f in fs}))
        raise Break('assignment of an object of type ' + norm(t))

    # ------------------------------------------------------------------------------------------ make_shared
    def make_shared(self, cls, argn, av, st, c, k):
        cls = norm(cls)
        if mty(cls) == 'str':
            v = self.load(av[0], st)
            return k(*self.strobj(v, st))
        if cls == 'bool':
            raise Break('shared bool')
        if is_vec(cls):
            k0 = k
            k = lambda v, s: k0(v, self.private(v.t, s))
        if not av and (is_vec(cls) or is_map(cls) and cls != 'LispScope'):
            return k(*self.empty(cls, st))
        if is_vec(cls) or (is_map(cls) and cls != 'LispScope'):
            v = self.load(av[0], st)
            if v.ty == 'int':
                f, et = self.vecf(cls)
                a, s2 = self.alloc(st, cls)
                self.check('0 <= %s' % v.t, '%s: size of a container' % self.where(c))
                return k(V(a, 'ref', cls), self.hset(s2, {f: '%s.%s.insert(%s, Seq::new(%s as nat, |i: int| %s))' % (s2.h, f, a, v.t, self.default_value(et).t)}))
            return self.copy_obj(cls, v.t, st, c, k)
        fn, conv = self.resolve_ctor(cls, argn, av)
        if fn is None:
            return self.copy_obj(cls, self.load(av[0], st).t, st, c, k)
        self.fill_defaults(fn, conv, st, c, lambda av2, s: self.run_ctor(cls, fn, av2, s, c, k))

    def fill_defaults(self, fn, av, st, c, k):
        if len(av) == len(fn.params):
            return k(list(av), st)
        d = self.default_arg(fn.node, fn.tu, len(av))
        if d is None:
            raise Break('default argument of ' + fn.qname)
        tu, node = d
        f = Frame(c.f.fn, tu, None)
        self.ev(node, st, Ctx(f, None, c.thr), lambda x, s: self.fill_defaults(fn, list(av) + [x], s, c, k))

    def resolve_ctor(self, cls, argn, av):
        """overload resolution of make_shared<cls>(args)"""
        at = []
        for a, n in zip(av, argn):
            t = norm(ctype(n))
            if isinstance(a, V) and a.x and isinstance(a.x, tuple) and a.x[0] == 'lam':
                t = 'std::function'
            at.append(t)
        best = []
        for fn in self.db.byname.get(cls + '::' + cls.split('::')[-1], []):
            if len(fn.params) < len(av):
                continue
            if len(fn.params) > len(av) and self.default_arg(fn.node, fn.tu, len(av)) is None:
                continue
            sc = 0
            for p, t in zip(fn.params, at):
                s = self.match(t, norm(ctype(p)))
                if s is None:
                    sc = None
                    break
                sc = max(sc, s)
            if sc is not None:
                best.append((sc, fn))
        if not best:
            if len(at) == 1 and at[0].split('::')[-1] == cls.split('::')[-1]:
                return None, av
            raise Break('no constructor of %s for %s' % (cls, at))
        best.sort(key=lambda x: x[0])
        if len(best) > 1 and best[0][0] == best[1][0]:
            raise Break('ambiguous constructor of %s for %s' % (cls, at))
        return best[0][1], av

    def match(self, t, p):
        if t == p or t.split('::')[-1] == p.split('::')[-1] and '<' not in t:
            return 0
        a, b = mty(t, self.db), mty(p, self.db)
        ca, cb = t.startswith('char'), p.startswith('char')
        if a == 'str' and b == 'str':
            if ca and cb:
                return 0
            if ca and not cb:
                return 3
            return 1 if not cb else None
        if a in ('int', 'bool', 'D') and b in ('int', 'bool', 'D'):
            if a == b and a != 'int':
                return 0
            en = t.split('::')[-1] in self.db.enums, p.split('::')[-1] in self.db.enums
            if en[1]:
                return None
            if en[0]:
                return 1 if norm(p) == 'int' else 2
            if t in ('bool', 'char', 'short') and p == 'int':
                return 1
            return 2
        if a == 'str' and b == 'bool' and ca:
            return 2
        if self.is_fn(p) and (t == 'std::function' or self.is_fn(t) or '(lambda' in t):
            return 1
        if is_ptr(t) and is_ptr(p):
            x, y = cls_of_type(t), cls_of_type(p)
            if x == y:
                return 0
            if 'nullptr_t' in t:
                return 2
            return None
        if 'nullptr' in t and is_ptr(p):
            return 2
        if t.replace(' ', '') == p.replace(' ', ''):
            return 0
        return None

    # ------------------------------------------------------------------------------------------ functions
    def lib_call(self, name, argn, av, st, c, k, n):
        def val(i):
            return self.load(av[i], st)
        if name == 'make_shared':
            return self.make_shared(cls_of_type(ctype(n)), argn, av, st, c, k)
        if name in MATH:
            return k(V('%s(%s)' % (MATH[name], ', '.join(val(i).t for i in range(len(av)))), 'D', 'double'), st)
        if name in OPAQUE:
            self.trusted_lib.add(name)
            return k(V('d_fun(%s, %s)' % (self.fnid('libm_' + name), ', '.join(self.dval(val(i)) for i in range(1))), 'D', 'double'), st)
        if name == 'abs':
            v = val(0)
            if v.ty == 'D':
                return k(V('d_abs(%s)' % v.t, 'D', 'double'), st)
            self.check('%s > -0x8000_0000' % v.t, '%s: abs of the smallest integer' % self.where(c))
            return k(V('(if %s < 0 { 0 - %s } else { %s })' % (v.t, v.t, v.t), 'int', 'int'), st)
        if name == 'to_string':
            v = val(0)
            if v.ty == 'D':
                return k(V('d_str(%s)' % v.t, 'str', 'string'), st)
            return k(V('i_str(%s)' % v.t, 'str', 'string'), st)
        if name == 'atoi':
            r = V(self.let('n', 'c_atoi(%s)' % val(0).t), 'int', 'int')
            self.assume('-0x8000_0000 <= %s <= 0x7fff_ffff' % r.t)
            self.assume('-0x8000_0000 <= %s <= 0x7fff_ffff' % r.t)
            return k(r, st)
        if name == 'atof':
            return k(V('c_atof(%s)' % val(0).t, 'D', 'double'), st)
        if name in ('isspace', 'isdigit'):
            return k(V('c_%s(%s)' % (name, val(0).t), 'int', 'int'), st)
        if name == 'tolower' or name == 'toupper':
            return k(V('c_%s(%s)' % (name, val(0).t), 'int', 'int'), st)
        if name in ('move', 'forward', 'static_pointer_cast', 'ref'):
            return k(av[0], st)
        if name == 'addressof':
            return k(av[0], st)
        if name == 'reverse':
            b, e = val(0), val(1)
            if b.x and b.x[0] == 'it' and b.t == '0':
                f, et = self.vecf(b.x[2])
                a = b.x[1]
                return k(V('0', 'void'), self.hset(st, {f: '%s.%s.insert(%s, s_reverse(%s.%s[%s]))' % (st.h, f, a, st.h, f, a)}))
            if self.whole_str(b, e, st):
                return k(V('0', 'void'), self.store(b.x[1], V(self.let('s', 's_reverse(%s)' % self.load(b.x[1], st).t), 'str', 'string'), st))
        if name in ('max', 'min'):
            x, y = val(0), val(1)
            if x.ty == 'int':
                op = '<' if name == 'min' else '>'
                return k(V('(if %s %s %s { %s } else { %s })' % (y.t, op, x.t, y.t, x.t), 'int', x.ct), st)
        if name == 'ptr_fun':
            return k(val(0), st)
        if name == 'transform':
            b, e, o, f = val(0), val(1), val(2), val(3)
            if self.whole_str(b, e, st) and o.ty == 'iter' and o.x[0] == 'sit' and o.x[1] is b.x[1] and o.t == '0' and not o.x[2]:
                p = self.fn_term(f, 'int', st, c, n)
                cur = self.load(b.x[1], st).t
                return k(V('0', 'iter', ctype(n), o.x), self.store(b.x[1], V(self.let('s', 'Seq::new(%s.len(), |i: int| (%s)(%s[i]))' % (paren(cur), p, paren(cur))), 'str', 'string'), st))
        if name in ('find_if_not', 'find_if'):
            b, e, f = val(0), val(1), val(2)
            if b.ty == 'iter' and b.x[0] == 'sit' and e.x and e.x[0] == 'sit' and b.x[2] == e.x[2] and b.x[1] is e.x[1]:
                p = self.fn_term(f, 'bool', st, c, n)
                cur = paren(self.load(b.x[1], st).t)
                at = lambda j: '%s[%s]' % (cur, '%s.len() - 1 - %s' % (cur, j) if b.x[2] else j)
                r = self.fresh('it', 'int')
                neg = '!' if name == 'find_if_not' else ''
                pos = '' if neg else '!'
                self.check('0 <= %s <= %s <= %s.len()' % (b.t, e.t, cur), '%s: %s range valid' % (self.where(c), name))
                self.assume('%s <= %s <= %s' % (b.t, r, e.t))
                lo, hi = ('%s.len() - %s' % (cur, r), '%s.len() - %s' % (cur, b.t)) if b.x[2] else (b.t, r)
                self.assume('forall|j: int| #![trigger %s[j]] %s <= j < %s ==> %s(%s)(%s[j])' % (cur, lo, hi, pos, p, cur))
                self.assume('%s < %s ==> %s(%s)(%s)' % (r, e.t, neg, p, at(r)))
                return k(V(r, 'iter', ctype(n), b.x), st)
        if name == 'equal' and len(av) == 3:
            b, e, o = val(0), val(1), val(2)
            if b.ty == 'iter' and e.ty == 'iter' and o.ty == 'iter' and b.x[0] == 'sit' and e.x[0] == 'sit' and o.x[0] == 'sit' and b.x[2] == e.x[2]:
                x, y = paren(self.load(b.x[1], st).t), paren(self.load(o.x[1], st).t)
                self.check('0 <= %s <= %s <= %s.len() && 0 <= %s && %s + (%s - %s) <= %s.len()' % (b.t, e.t, x, o.t, o.t, e.t, b.t, y), '%s: equal range valid' % self.where(c))
                # i: position in the first string, counted from its start
                lo, hi = ('%s.len() - %s' % (x, e.t), '%s.len() - %s' % (x, b.t)) if b.x[2] else (b.t, e.t)
                j = '%s.len() - 1 - i - %s + %s' % (x, b.t, o.t) if b.x[2] else 'i - %s + %s' % (b.t, o.t)
                if o.x[2]:
                    j = '%s.len() - 1 - (%s)' % (y, j)
                return k(V('(forall|i: int| #![trigger %s[i]] %s <= i < %s ==> %s[i] == %s[%s])' % (x, lo, hi, x, y, j), 'bool', 'bool'), st)
        if name == 'strtol' and len(av) == 3:
            t, base = val(0), val(2)
            p = av[1]
            r = V(self.let('n', 'c_strtol(%s, %s)' % (t.t, base.t)), 'int', 'long')
            self.assume('-0x8000_0000_0000_0000 <= %s <= 0x7fff_ffff_ffff_ffff' % r.t)
            p = self.load(p, st)
            if p.x and isinstance(p.x, tuple) and p.x[0] == 'lv':
                st = self.store(p.x[1], V('c_strtol_rest(%s, %s)' % (t.t, base.t), 'str', 'char *'), st)
                return k(r, st)
            if p.t == '0':
                return k(r, st)
        if name in ('stoi', 'stod'):
            # status: 0 a number, 1 no number, 2 a number out of range
            t = val(0).t
            a = t
            if name == 'stoi':
                a += ', ' + (val(2).t if len(av) > 2 else '10')
            code = self.let('st', 'c_%s_st(%s)' % (name, a))

            def num():
                s2 = st
                if len(av) > 1:
                    p = self.load(av[1], st)
                    if p.x and isinstance(p.x, tuple) and p.x[0] == 'lv':
                        ln = self.let('n', 'c_%s_len(%s)' % (name, a))
                        self.assume('0 < %s <= %s.len()' % (ln, paren(t)))
                        s2 = self.store(p.x[1], V(ln, 'int', 'unsigned long'), st)
                    elif p.t != '0':
                        raise Break('stoi')
                r = self.let('n', 'c_%s(%s)' % (name, a))
                if name == 'stoi':
                    self.assume('-0x8000_0000 <= %s <= 0x7fff_ffff' % r)
                k(V(r, 'int' if name == 'stoi' else 'D', 'int' if name == 'stoi' else 'double'), s2)

            def thr(kind):
                x, s2 = self.alloc(st, kind)
                c.thr(kind, V(x, 'ref', kind), s2)
            return self.branch('%s == 1' % code, lambda: thr('std::invalid_argument'), lambda: self.branch('%s == 2' % code, lambda: thr('std::out_of_range'), num))
        raise Break('library function ' + name)

    def fn_term(self, f, ty, st, c, n):
        """a function object on characters as a term |x| ..."""
        x = V('fx_', 'int', 'char')
        res = []
        snap = (self.quiet, self.nfresh, self.npaths)
        self.quiet = 1
        try:
            if f.x and isinstance(f.x, tuple) and f.x[0] == 'lam':
                self.call_lambda(f.x, [x], st, c, lambda v, s: res.append((self.load(v, s), s)))
            elif f.x and isinstance(f.x, tuple) and f.x[0] == 'fn':
                self.call_fnref(f.x, [], [x], st, c, lambda v, s: res.append((self.load(v, s), s)), n)
            else:
                raise Break('call of an unknown function object')
        finally:
            self.quiet, self.nfresh, self.npaths = snap
        if len(res) != 1 or res[0][1].h != st.h:
            raise Break('function object with effects')
        v = res[0][0]
        t = v.t
        if ty == 'bool' and v.ty == 'int':
            t = '%s != 0' % paren(t)
        if re.search(r'_[0-9]+\b', t):
            raise Break('function object with local values')
        return '|fx_: int| ' + t

    def whole_str(self, b, e, st):
        return b.ty == 'iter' and b.x[0] == 'sit' and e.x[0] == 'sit' and not b.x[2] and not e.x[2] and b.x[1] is e.x[1] and b.t == '0' and e.t == '(%s.len() as int)' % paren(self.load(b.x[1], st).t)

    def dval(self, v):
        return v.t if v.ty == 'D' else 'd_of(%s)' % v.t

    # ------------------------------------------------------------------------------------------ operators
    def lib_op(self, name, argn, av, st, c, k, n):
        op = name[len('operator'):]
        vals = None

        def val(i):
            return self.load(av[i], st)
        t0 = ctype(argn[0])
        ty0 = mty(t0, self.db)
        if op == '()':
            f = val(0)
            if f.x and isinstance(f.x, tuple) and f.x[0] == 'lam':
                return self.call_lambda(f.x, av[1:], st, c, k)
            if f.x and isinstance(f.x, tuple) and f.x[0] == 'fn':
                return self.call_fnref(f.x, argn[1:], av[1:], st, c, k, n)
            if f.x and isinstance(f.x, tuple) and f.x[0] == 'fnparam':
                return self.call_fnparam(f, av[1:], st, c, k, n)
            return self.call_unknown(f, t0, av[1:], st, c, k, n)
        if op == '=':
            if ty0 == 'str':
                y = val(1)
                if y.ty == 'int':
                    y = V('seq![%s]' % y.t, 'str')
                return k(av[0], self.store(av[0], V(y.t, 'str', 'string'), st))
            if is_ptr(t0) or self.is_fn(t0) or ty0 == 'iter' or ty0 in ('int', 'bool'):
                y = val(1)
                y = V(y.t if y.ty != 'void' else '0', ty0, t0, y.x if y.x != 'safe' else None)
                return k(av[0], self.store(av[0], y, st))
            if is_vec(norm(t0)):
                a, b = self.addr(av[0], st), self.addr(av[1], st)
                f, et = self.vecf(norm(t0))
                if self.is_class(et):
                    raise Break('assignment of a container of objects')
                return k(av[0], self.hset(st, {f: '%s.%s.insert(%s, %s.%s[%s])' % (st.h, f, a, st.h, f, b)}))
            if norm(t0).endswith('DataType'):
                a, b = self.addr(av[0], st), self.addr(av[1], st)
                upd = {}
                for f in list(self.fields):
                    if f.startswith('DataType_'):
                        upd[f] = '%s.%s.insert(%s, %s.%s[%s])' % (st.h, f, a, st.h, f, b)
                for f, t in (('DataType_b', 'bool'), ('DataType_i', 'int'), ('DataType_d', 'D')):
                    self.field(f, 'Map<int,%s>' % t)
                    upd[f] = '%s.%s.insert(%s, %s.%s[%s])' % (st.h, f, a, st.h, f, b)
                return k(av[0], self.hset(st, upd))
            raise Break('assignment of ' + norm(t0))
        if op in ('==', '!='):
            x, y = val(0), val(1)
            if x.ty == 'str' or y.ty == 'str' or x.ty == 'iter' or (x.ty == 'ref' and (is_ptr(t0) or is_ptr(ctype(argn[1])) or self.is_fn(t0) or self.is_fn(ctype(argn[1])))):
                if self.is_fn(t0) and x.x and isinstance(x.x, tuple):
                    return k(V('true' if op == '!=' else 'false', 'bool', 'bool'), st)
                xt = x.t if x.ty != 'void' else '0'
                yt = y.t if y.ty != 'void' else '0'
                return k(V('(%s %s %s)' % (xt, op, yt), 'bool', 'bool'), st)
            raise Break('comparison of ' + norm(t0))
        if op in ('<', '>', '<=', '>='):
            x, y = val(0), val(1)
            if x.ty == 'str' and y.ty == 'str':
                r = {'<': 's_cmp(%s, %s) < 0', '>': 's_cmp(%s, %s) > 0', '<=': 's_cmp(%s, %s) <= 0', '>=': 's_cmp(%s, %s) >= 0'}[op] % (x.t, y.t)
                return k(V('(%s)' % r, 'bool', 'bool'), st)
            raise Break('comparison of ' + norm(t0))
        if op == '+':
            x, y = val(0), val(1)
            if x.ty == 'iter':
                return k(V('(%s + %s)' % (x.t, y.t), 'iter', x.ct, x.x), st)
            xs = x.t if x.ty == 'str' else 'seq![%s]' % x.t
            ys = y.t if y.ty == 'str' else 'seq![%s]' % y.t
            li = {n + '()': t for t, n in self.lit.items()}
            if xs in li and ys in li:
                return k(V(self.strlit(li[xs] + li[ys]), 'str', 'string'), st)
            r = V('(%s + %s)' % (xs, ys), 'str', 'string')
            return k(r, st)
        if op == '-':
            x, y = val(0), val(1)
            if x.ty == 'iter' and y.ty == 'iter':
                return k(V('(%s - %s)' % (x.t, y.t), 'int', 'long'), st)
            return k(V('(%s - %s)' % (x.t, y.t), 'iter', x.ct, x.x), st)
        if op == '+=':
            x, y = val(0), val(1)
            ys = y.t if y.ty == 'str' else 'seq![%s]' % y.t
            r = V(self.let('s', '%s + %s' % (paren(x.t), paren(ys))), 'str', 'string')
            return k(av[0], self.store(av[0], r, st))
        if op == '[]':
            if ty0 == 'str':
                return k(self.index_str(av[0], val(1), st, c), st)
            return self.lib_method(norm(t0), 'operator[]', av[0], av[1:], st, c, k, n, argn[1:])
        if op == '*':
            x = val(0)
            if x.ty == 'iter':
                return k(self.deref_it(x, st, c), st)
            x = self.short(x, 'p')
            if x.x != 'safe':
                self.deref_ok(st, x.t, cls_of_type(t0), '%s: valid pointer for *' % self.where(c))
            return k(self.deref_cls(x, cls_of_type(t0)), st)
        if op == '->':
            x = val(0)
            if x.ty == 'iter':
                return k(self.deref_it(x, st, c), st)
            return k(V(x.t, 'ref', ctype(n), x.x if isinstance(x.x, tuple) else None), st)
        if op in ('++', '--'):
            x = val(0)
            nv = V(self.let('it', '%s %s 1' % (x.t, op[0])), 'iter', x.ct, x.x)
            s2 = self.store(av[0], nv, st)
            if len(av) > 1:
                return k(x, s2)
            return k(av[0], s2)
        if op == '!':
            return k(V('(%s == 0)' % val(0).t, 'bool', 'bool'), st)
        if op == '<<':
            return k(av[0], st)
        raise Break('library operator %s on %s' % (op, norm(t0)))

    def call_unknown(self, f, t, av, st, c, k, n):
        ft = norm(t).replace(' ', '')
        ft = re.sub(r'^std::function<(.*)>$', r'\1', ft)
        ct = self.lams.get(ft) or self.lams.get(t.split('::')[-1])
        if ct is None:
            raise Break('call of an unknown function object of type ' + repr(ft))
        rt, ps = ft.split('(', 1)
        d = {'kind': 'CXXMethodDecl', 'type': {'qualType': t if '(' in t else ''}, 'inner': [{'kind': 'ParmVarDecl', 'type': {'qualType': p}} for p in re.findall(r'[^,]+', ps[:-1])]}
        self.check('0 < %s' % f.t, '%s: function object is not empty' % self.where(c))
        self.apply(ct, None, d, V(f.t, 'ref', 'std::function'), av, st, c, k)

    def call_fnparam(self, f, av, st, c, k, n):
        raise Break('call of a function parameter')

    def addr(self, x, st):
        return self.let('a', self.load(x, st).t)

    def deref_cls(self, x, cls):
        if mty(cls) == 'str':
            self.field('strv', 'Map<int,Seq<int>>')
            return LV('field', ('strv', x.t), 'str', cls)
        if self.is_fn(cls):
            return V(x.t, 'ref', cls, x.x)
        return V(x.t, 'ref', cls)

    def deref_it(self, x, st, c):
        kd = x.x[0] if x.x else None
        if kd == 'it':
            f, et = self.vecf(x.x[2])
            a = x.x[1]
            self.check('0 <= %s < %s.%s[%s].len()' % (x.t, st.h, f, a), '%s: iterator in range' % self.where(c))
            ty = mty(et, self.db)
            return LV('elem', (f, a, x.t), ty, et)
        if kd == 'mit':
            f, kt, vt = self.mapf(x.x[2])
            a = x.x[1]
            self.check('0 <= %s < mkeys_%s(%s.%s[%s]).len()' % (x.t, f, st.h, f, a), '%s: iterator in range' % self.where(c))
            return V(x.t, 'iter', '', ('pairit', a, x.x[2], x.t))
        raise Break('iterator of unknown container')

    def pair_field(self, p, name, st):
        if p.x[0] == 'pairv':
            return p.x[1] if name in ('first', 'Key') else p.x[2]
        _, a, cls, i = p.x
        f, kt, vt = self.mapf(cls)
        key = 'mkeys_%s(%s.%s[%s])[%s]' % (f, st.h, f, a, i)
        if name in ('first', 'Key') and mty(kt, self.db) != 'str':
            return V('%s.%sk[%s][%s]' % (st.h, f, a, key), 'ref', kt)
        if name in ('first', 'Key'):
            return V(key, mty(kt, self.db), kt)
        key = self.let('key', key)
        return LV('mapv', (f, a, key), mty(vt, self.db), vt)

    def index_str(self, x, i, st, c):
        i = self.load(i, st)
        s = self.load(x, st)
        if s.ty == 'ref' and s.x and isinstance(s.x, tuple) and s.x[0] == 'carr':
            el = s.x[1]
            self.check('0 <= %s < %d' % (i.t, len(el)), '%s: array index in range' % self.where(c))
            t = el[-1].t
            for j in range(len(el) - 2, -1, -1):
                t = 'if %s == %d { %s } else { %s }' % (i.t, j, el[j].t, t)
            return V('(%s)' % t, el[0].ty, el[0].ct)
        if s.ty != 'str':
            raise Break('index of ' + s.ty)
        # operator[] of the position behind the last character gives a zero character
        self.check('0 <= %s <= %s.len()' % (i.t, paren(s.t)), '%s: string index in range' % self.where(c))
        return V('s_at(%s, %s)' % (s.t, i.t), 'int', 'char', None)

    def init_list(self, n, st, c, k):
        m = re.match(r'const (CppLisp::)?string \*\[\d+\]$', n['type']['qualType'])
        if m:
            # an array of addresses of constant strings: the strings
            def ka(av, s):
                el = []
                for v in av:
                    x = self.load(v, s)
                    if x.x and isinstance(x.x, tuple) and x.x[0] == 'lv':
                        x = self.load(x.x[1], s)
                    if x.ty != 'str':
                        raise Break('array of ' + x.ty)
                    el.append(x)
                k(V('1', 'ref', 'carr', ('carr', el)), s)
            return self.evs(self.inner(n), st, c, ka)
        raise Break('initialiser list')

    # ------------------------------------------------------------------------------------------ methods
    def lib_method(self, cls, name, this, av, st, c, k, n, argn):
        def val(i):
            return self.load(av[i], st)
        tv = self.load(this, st) if isinstance(this, LV) else this
        if cls == 'shared_ptr' or (is_ptr(cls) and not is_vec(cls)) or cls.startswith('std::__shared_ptr'):
            if name == 'get':
                return k(V(tv.t, 'ref', ctype(n), tv.x), st)
            if name == 'operator bool':
                return k(V('(%s != 0)' % tv.t, 'bool', 'bool'), st)
            if name == 'reset':
                return k(V('0', 'void'), self.store(this, V('0', 'ref', cls), st))
            raise Break('shared_ptr::' + name)
        if isinstance(tv, V) and tv.x and isinstance(tv.x, tuple) and tv.x[0] == 'lv':
            this = tv.x[1]
            tv = self.load(this, st)
        if mty(cls) == 'str' or tv.ty == 'str':
            if tv.ty != 'str':
                this = self.deref_cls(tv, 'string')
                tv = self.load(this, st)
            return self.str_method(name, this, tv, av, st, c, k, n, argn)
        if name == 'shared_from_this':
            return k(V(tv.t, 'ref', ctype(n)), st)
        if name == 'what':
            return k(self.freshv('what', 'char *'), st)
        if is_vec(cls):
            return self.vec_method(cls, name, tv, av, st, c, k, n, argn)
        if is_map(cls):
            return self.map_method(cls, name, tv, av, st, c, k, n, argn)
        if self.is_fn(cls) and name == 'operator bool':
            return k(V('(%s != 0)' % tv.t, 'bool', 'bool'), st)
        if name == 'base' and tv.ty == 'iter' and tv.x[0] == 'sit' and tv.x[2]:
            return k(V('(%s.len() - %s)' % (paren(self.load(tv.x[1], st).t), tv.t), 'iter', ctype(n), ('sit', tv.x[1], False)), st)
        raise Break('method %s of %s' % (name, cls))

    def str_method(self, name, this, tv, av, st, c, k, n, argn):
        s = paren(tv.t)

        def val(i):
            return self.load(av[i], st)
        nd = [a for a, m in zip(av, argn)]
        if name in ('size', 'length'):
            return k(self.length(tv.t), st)
        if name == 'empty':
            return k(V('(%s.len() == 0)' % s, 'bool', 'bool'), st)
        if name in ('c_str', 'data'):
            return k(V(tv.t, 'str', 'char *'), st)
        if name == 'append':
            y = val(0)
            r = V(self.let('s', '%s + %s' % (s, paren(y.t))), 'str', 'string')
            return k(this, self.store(this, r, st))
        if name in ('find', 'find_last_of'):
            y = val(0)
            ys = y.t if y.ty == 'str' else 'seq![%s]' % y.t
            pos = val(1).t if len(av) > 1 else '0'
            r = V(self.let('pos', 's_%s(%s, %s, %s)' % (name, tv.t, ys, pos)), 'int', 'unsigned long')
            if name == 'find':
                self.assume('find_ok(%s, %s, %s, %s)' % (paren(tv.t), paren(ys), pos, r.t))
            else:
                self.assume('(0 <= %s < %s.len() || %s == 0xffff_ffff_ffff_ffff)' % (r.t, s, r.t))
            return k(r, st)
        if name == 'substr':
            p = val(0)
            cnt = val(1).t if len(av) > 1 else '0xffff_ffff_ffff_ffff'
            self.check('%s <= %s.len()' % (p.t, s), '%s: substr position in range' % self.where(c))
            return k(V('s_substr(%s, %s, %s)' % (tv.t, p.t, cnt), 'str', 'string'), st)
        if name == 'compare':
            if len(av) == 1:
                return k(V('s_cmp(%s, %s)' % (tv.t, val(0).t), 'int', 'int'), st)
            p, cnt, y = val(0), val(1), val(2)
            self.check('%s <= %s.len()' % (p.t, s), '%s: compare position in range' % self.where(c))
            return k(V('s_cmp(s_substr(%s, %s, %s), %s)' % (tv.t, p.t, cnt.t, y.t), 'int', 'int'), st)
        if name == 'replace':
            p, cnt, y = val(0), val(1), val(2)
            self.check('%s <= %s.len()' % (p.t, s), '%s: replace position in range' % self.where(c))
            r = self.let('s', 's_replace(%s, %s, %s, %s)' % (tv.t, p.t, cnt.t, y.t))
            return k(this, self.store(this, V(r, 'str', 'string'), st))
        if name in ('begin', 'cbegin', 'rbegin', 'crbegin'):
            return k(V('0', 'iter', ctype(n), ('sit', this, name.lstrip('c')[0] == 'r')), st)
        if name in ('end', 'cend', 'rend', 'crend'):
            self.assume('%s.len() <= %s' % (s, LEN))
            return k(V('(%s.len() as int)' % s, 'iter', ctype(n), ('sit', this, name.lstrip('c')[0] == 'r')), st)
        if name == 'erase' and nd and self.load(av[0], st).ty == 'iter':
            b, e = val(0), val(1)
            self.check('0 <= %s <= %s <= %s.len()' % (b.t, e.t, s), '%s: erase range valid' % self.where(c))
            r = self.let('s', '%s.subrange(0, (%s) as int) + %s.subrange((%s) as int, %s.len() as int)' % (s, b.t, s, e.t, s))
            return k(V(b.t, 'iter', ctype(n), ('sit', this, False)), self.store(this, V(r, 'str', 'string'), st))
        raise Break('string::' + name)

    def vec_method(self, cls, name, tv, av, st, c, k, n, argn):
        f, et = self.vecf(cls)
        a = self.let('v', tv.t)
        cur = '%s.%s[%s]' % (st.h, f, a)
        ety = mty(et, self.db)

        def val(i):
            return self.load(av[i], st)

        def upd(t, r=None):
            s2 = self.hset(st, {f: '%s.%s.insert(%s, %s)' % (st.h, f, a, t)})
            return k(r if r is not None else V('0', 'void'), s2)
        if name in ('size', 'Count'):
            return k(self.length(cur), st)
        if name == 'empty':
            return k(V('(%s.len() == 0)' % cur, 'bool', 'bool'), st)
        if name in ('begin', 'cbegin'):
            return k(V('0', 'iter', ctype(n), ('it', a, cls)), st)
        if name in ('end', 'cend'):
            self.assume('%s.len() <= %s' % (cur, LEN))
            return k(V('(%s.len() as int)' % cur, 'iter', ctype(n), ('it', a, cls)), st)
        if name in ('operator[]', 'at'):
            i = val(0)
            self.check('0 <= %s < %s.len()' % (i.t, cur), '%s: index in range' % self.where(c))
            return k(LV('elem', (f, a, i.t), ety, et), st)
        if name in ('front', 'back', 'top'):
            self.check('%s.len() > 0' % cur, '%s: %s of a non-empty container' % (self.where(c), name))
            i = '0' if name == 'front' else '(%s.len() - 1)' % cur
            return k(LV('elem', (f, a, i), ety, et), st)
        if name in ('push_back', 'push'):
            v = val(0)
            if self.is_class(et):
                return self.copy_obj(norm(et), v.t, st, c, lambda o, s2: k(V('0', 'void'), self.hset(s2, {f: '%s.%s.insert(%s, %s.%s[%s].push(%s))' % (s2.h, f, a, s2.h, f, a, o.t)})))
            return upd('%s.push(%s)' % (cur, v.t))
        if name in ('pop_back', 'pop'):
            self.check('%s.len() > 0' % cur, '%s: pop_back of a non-empty container' % self.where(c))
            return upd('%s.drop_last()' % cur)
        if name == 'clear':
            return upd('Seq::empty()')
        if name == 'erase':
            it = val(0)
            if len(av) == 1:
                self.check('0 <= %s < %s.len()' % (it.t, cur), '%s: erase position in range' % self.where(c))
                return upd('%s.remove((%s) as int)' % (cur, it.t), V(it.t, 'iter', ctype(n), ('it', a, cls)))
            e = val(1)
            self.check('0 <= %s <= %s <= %s.len()' % (it.t, e.t, cur), '%s: erase range valid' % self.where(c))
            return upd('(%s.subrange(0, %s) + %s.subrange(%s, %s.len() as int))' % (cur, it.t, cur, e.t, cur), V(it.t, 'iter', ctype(n), ('it', a, cls)))
        if name == 'insert':
            it, v = val(0), val(1)
            self.check('0 <= %s <= %s.len()' % (it.t, cur), '%s: insert position in range' % self.where(c))
            if len(av) == 3:
                e = val(2)
                if not (v.x and v.x[0] == 'it'):
                    raise Break('insert of a range')
                b = '%s.%s[%s]' % (st.h, f, v.x[1])
                self.check('0 <= %s <= %s <= %s.len()' % (v.t, e.t, b), '%s: inserted range valid' % self.where(c))
                rng = '%s.subrange(%s, %s)' % (b, v.t, e.t)
                if v.t == '0' and e.t == '(%s.len() as int)' % b:
                    rng = b
                if it.t == '(%s.len() as int)' % cur:
                    return upd('(%s + %s)' % (cur, rng))
                return upd('(%s.subrange(0, %s) + %s + %s.subrange(%s, %s.len() as int))' % (cur, it.t, rng, cur, it.t, cur))
            return upd('%s.insert((%s) as int, %s)' % (cur, it.t, v.t), V(it.t, 'iter', ctype(n), ('it', a, cls)))
        raise Break('vector::' + name)

    def mapkey(self, f, kt, v, st, c):
        """the key of a map as a mathematical value: a string, or the class of equal keys"""
        if mty(kt, self.db) == 'str':
            return self.short(v, 'key')
        mk = self.spec.get('mapkey', {}).get(f)
        if mk is None:
            raise Break('map with keys of type ' + kt)
        pre, t, lem = mk
        v = self.short(v, 'k')
        self.check(pre.format(h=st.h, k=v.t), '%s: valid key' % self.where(c))
        if not self.quiet:
            self.out(lem.format(h=st.h, k=v.t))
        return V(self.let('key', t.format(h=st.h, k=v.t)), 'int', 'key')

    def map_method(self, cls, name, tv, av, st, c, k, n, argn):
        f, kt, vt = self.mapf(cls)
        cplx = mty(kt, self.db) != 'str'
        if cplx:
            self.field(f + 'k', 'Map<int,Map<int,int>>')
        a = self.let('m', tv.t)
        cur = '%s.%s[%s]' % (st.h, f, a)
        curk = '%s.%sk[%s]' % (st.h, f, a)
        vty = mty(vt, self.db)

        def val(i):
            return self.load(av[i], st)
        if name in ('size', 'Count'):
            self.assume('%s.dom().len() <= %s' % (cur, LEN))
            self.assume('mkeys_%s(%s).len() == %s.dom().len()' % (f, cur, cur))
            return k(V('(%s.dom().len() as int)' % cur, 'int', 'unsigned long'), st)
        if name in ('begin', 'cbegin'):
            return k(V('0', 'iter', ctype(n), ('mit', a, cls)), st)
        if name in ('end', 'cend'):
            return k(V('(mkeys_%s(%s).len() as int)' % (f, cur), 'iter', ctype(n), ('mit', a, cls)), st)
        if name == 'find':
            key = self.mapkey(f, kt, val(0), st, c)
            r = self.let('it', 'mfind_%s(%s, %s)' % (f, cur, key.t))
            self.out('lemma_mfind_%s(%s, %s);' % (f, cur, key.t))
            return k(V(r, 'iter', ctype(n), ('mit', a, cls)), st)
        if name == 'operator[]':
            kv = self.short(val(0), 'k')
            key = self.mapkey(f, kt, kv, st, c)
            d = self.default_value(vt)
            if cplx:
                def absent():
                    def cont(o, s2):
                        u = {f: '%s.%s.insert(%s, %s.%s[%s].insert(%s, %s))' % (s2.h, f, a, s2.h, f, a, key.t, d.t), f + 'k': '%s.%sk.insert(%s, %s.%sk[%s].insert(%s, %s))' % (s2.h, f, a, s2.h, f, a, key.t, o.t)}
                        k(LV('mapv', (f, a, key.t), vty, vt), self.hset(s2, u))
                    self.copy_obj(norm(kt), kv.t, st, c, cont)
                return self.branch('%s.contains_key(%s)' % (cur, key.t), lambda: k(LV('mapv', (f, a, key.t), vty, vt), st), absent)
            t = self.let('mv', 'if %s.contains_key(%s) { %s } else { %s.insert(%s, %s) }' % (cur, key.t, cur, cur, key.t, d.t))
            s2 = self.hset(st, {f: '%s.%s.insert(%s, %s)' % (st.h, f, a, t)})
            return k(LV('mapv', (f, a, key.t), vty, vt), s2)
        if name == 'erase':
            if val(0).ty == 'iter':
                raise Break('erase of an iterator')
            key = self.mapkey(f, kt, val(0), st, c)
            u = {f: '%s.%s.insert(%s, %s.remove(%s))' % (st.h, f, a, cur, key.t)}
            if cplx:
                u[f + 'k'] = '%s.%sk.insert(%s, %s.remove(%s))' % (st.h, f, a, curk, key.t)
            s2 = self.hset(st, u)
            return k(V('(if %s.contains_key(%s) { 1int } else { 0int })' % (cur, key.t), 'int', 'unsigned long'), s2)
        if name == 'clear':
            u = {f: '%s.%s.insert(%s, Map::empty())' % (st.h, f, a)}
            if cplx:
                u[f + 'k'] = '%s.%sk.insert(%s, Map::empty())' % (st.h, f, a)
            return k(V('0', 'void'), self.hset(st, u))
        if name == 'empty':
            return k(V('(%s.dom().len() == 0)' % cur, 'bool', 'bool'), st)
        raise Break('map::' + name)


def norm2(t):
    t = t.replace('CppLisp::', '').replace('std::', '').replace('__cxx11::', '')
    t = re.sub(r' noexcept(\(.*\))?$', '', t)
    return t.replace(' ', '')
