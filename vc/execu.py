"""Expressions, statements and calls of the symbolic executor."""
import re
from sym import *
import lib

LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')
SKIP1 = ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr', 'CXXRewrittenBinaryOperator')
IMPOPS = {'==', '!=', '<', '>', '<=', '>='}


class Exec(lib.Lib, Engine):

    # ------------------------------------------------------------------------------------------ helpers
    def inner(self, n):
        return [x for x in n.get('inner', ()) if isinstance(x, dict)]

    def ev(self, n, st, c, k):
        kind = n.get('kind')
        while kind in SKIP1:
            n = self.inner(n)[0]
            kind = n.get('kind')
        m = getattr(self, 'e_' + kind, None)
        def go(k):
            if m is None:
                raise Break('expression %s in %s' % (kind, c.f.fn.qname if c.f.fn else '?'))
            return m(n, st, c, k)
        return self.soft(go, k, c)

    def soft(self, go, k, c):
        """an operation outside of the reach of the generator becomes the obligation that it is not reached"""
        went = []

        def k1(*a):
            went.append(1)
            return k(*a)
        snap = (len(self.lines), self.ind, len(self.obl), self.quiet, list(getattr(self, 'guards', [])), list(self.rec), self.npaths, list(self.stack))
        try:
            return go(k1)
        except Break as e:
            if e.hard or went:
                raise
            del self.lines[snap[0]:]
            del self.obl[snap[2]:]
            self.ind, self.quiet, self.guards, self.rec, self.npaths, self.stack = snap[1], snap[3], snap[4], snap[5], snap[6], snap[7]
            self.soft_breaks = getattr(self, 'soft_breaks', [])
            self.soft_breaks.append(str(e))
            self.check('false', '%s: unsupported operation is not reached: %s' % (self.where(c), e))

    def rv(self, n, st, c, k):
        self.ev(n, st, c, lambda x, s: k(self.load(x, s), s))

    def evs(self, ns, st, c, k, acc=()):
        if not ns:
            return k(list(acc), st)
        self.ev(ns[0], st, c, lambda x, s: self.evs(ns[1:], s, c, k, acc + (x,)))

    def tcls(self, n):
        return cls_of_type(ctype(n))

    # ------------------------------------------------------------------------------------------ literals
    def e_IntegerLiteral(self, n, st, c, k):
        v = n['value']
        k(V(v if not v.startswith('-') else '(%s)' % v, 'int', ctype(n)), st)

    def e_FloatingLiteral(self, n, st, c, k):
        k(V(self.dlit(n['value']), 'D', 'double'), st)

    def e_CXXBoolLiteralExpr(self, n, st, c, k):
        k(V('true' if n['value'] else 'false', 'bool', 'bool'), st)

    def e_CharacterLiteral(self, n, st, c, k):
        v = int(n['value'])
        v = v - 256 if v > 127 else v
        k(V(str(v) if v >= 0 else '(%d)' % v, 'int', 'char'), st)

    def e_StringLiteral(self, n, st, c, k):
        k(V(self.strlit(unescape(n['value'])), 'str', 'char *'), st)

    def e_CXXNullPtrLiteralExpr(self, n, st, c, k):
        k(V('0', 'ref', 'nullptr_t'), st)

    def e_GNUNullExpr(self, n, st, c, k):
        k(V('0', 'int', 'long'), st)

    def e_ImplicitValueInitExpr(self, n, st, c, k):
        k(self.default_value(ctype(n)), st)

    def e_CXXScalarValueInitExpr(self, n, st, c, k):
        k(self.default_value(ctype(n)), st)

    def default_value(self, t):
        ty = mty(t, self.db)
        return V({'int': '0', 'bool': 'false', 'D': 'd_of(0int)', 'str': 'Seq::<int>::empty()', 'ref': '0', 'void': '0', 'iter': '0'}[ty], ty, t)

    # ------------------------------------------------------------------------------------------ names
    def e_DeclRefExpr(self, n, st, c, k):
        r = n['referencedDecl']
        kd = r['kind']
        if kd == 'EnumConstantDecl':
            if r['name'] not in self.db.enumc:
                return k(V(self.enum_ext(r['name']), 'int', ctype(n)), st)
            v = self.db.enumc[r['name']]
            return k(V(str(v) if v >= 0 else '(%d)' % v, 'int', ctype(n)), st)
        if kd in ('FunctionDecl', 'CXXMethodDecl'):
            return k(V(self.fnid(r['name']), 'ref', ctype(n), ('fn', r, c.f.tu)), st)
        if r['id'] in c.f.vars:
            return k(c.f.vars[r['id']], st)
        return self.static_var(r, n, st, c, k)

    def enum_ext(self, name):
        raise Break('enum constant ' + name)

    def fnid(self, name):
        n = 'FN_' + re.sub(r'\W', '_', name)
        self.fnames.setdefault(n, len(self.fnames) + 1)
        return n + '()'

    def qvar(self, r, c):
        t = c.f.tu
        d = t.decl.get(r['id'])
        cls = ''
        if d is not None:
            cls = self.db.cls_of(t, d)
        return (cls + '::' if cls else '') + r['name'], d

    def static_var(self, r, n, st, c, k):
        q, d = self.qvar(r, c)
        if q in self.spec.get('globals', {}):
            g = self.spec['globals'][q]
            return k(V(g, mty(ctype(n), self.db), ctype(n)), st)
        t = ctype(n)
        if r['name'] == 'npos':
            return k(V('0xffff_ffff_ffff_ffff', 'int', 'unsigned long'), st)
        ini = self.db.vars.get(q)
        ty = mty(t, self.db)
        if ini is None:
            # a constant of another translation unit
            cand = [x for x in self.db.vars if x.split('::')[-1] == r['name']]
            if len(cand) == 1:
                q = cand[0]
                ini = self.db.vars[q]
        if ini is None:
            raise Break('variable %s without known value' % q)
        if ty in ('str', 'D', 'int', 'bool'):
            tu, node = ini
            self.check_const(q, node)
            f = Frame(None, tu, None)
            f.fn = c.f.fn
            res = []
            cc = Ctx(f, None, None)
            ex = [x for x in self.inner(node) if x['kind'] not in ('FullComment',)]
            self.ev(ex[0], st, cc, lambda x, s: res.append(self.load(x, s)))
            if len(res) != 1:
                raise Break('initialiser of %s' % q)
            v = res[0]
            return k(V(v.t, ty, t), st)
        raise Break('static variable %s' % q)

    def check_const(self, q, node):
        """a static variable may be treated as constant if no code assigns it"""
        if 'const' in node['type']['qualType']:
            return
        if not hasattr(self.db, 'assigned'):
            self.db.assigned = set()
            for f in self.db.fn.values():
                stack = [f.body]
                while stack:
                    x = stack.pop()
                    if x.get('kind') in ('BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator') and x.get('opcode') in ('=', '+=', '-=', '*=', '/=', '++', '--', '&'):
                        y = self.inner(x)[0]
                        while y.get('kind') in SKIP1 + ('ImplicitCastExpr',):
                            y = self.inner(y)[0]
                        if y.get('kind') == 'DeclRefExpr':
                            self.db.assigned.add(y['referencedDecl']['name'])
                    stack.extend(self.inner(x))
        if q.split('::')[-1] in self.db.assigned:
            raise Break('%s is not constant' % q)

    def e_CXXThisExpr(self, n, st, c, k):
        k(c.f.this, st)

    # ------------------------------------------------------------------------------------------ member access
    def e_MemberExpr(self, n, st, c, k):
        b = self.inner(n)[0]
        def k2(x, s):
            name = n['name']
            d = c.f.tu.decl.get(n.get('referencedMemberDecl'))
            bt = self.btype(b)
            if isinstance(x, LV) and x.k == 'cell':
                y = s.env.get(x.a)
                if y is not None and isinstance(y.x, tuple) and y.x[0] in ('pairit', 'pairv'):
                    x = y
            if isinstance(x, V) and isinstance(x.x, tuple) and x.x[0] in ('pairit', 'pairv'):
                return k(self.pair_field(x, name, s), s)
            if n.get('isArrow'):
                p = self.load(x, s)
                p, cls = self.pointee(p, bt, s, c, name)
            else:
                p = self.load(x, s) if not isinstance(x, V) else x
                cls = cls_of_type(bt)
            if d is not None and d['kind'] == 'VarDecl':     # static member
                return self.static_var({'id': d['id'], 'name': d['name']}, n, s, c, k)
            if d is not None and d['kind'] == 'FieldDecl':
                own = self.db.cls_of(c.f.tu, d) or cls
            else:
                own = cls
            k(self.fieldlv(own, name, p, ctype(n)), s)
        self.ev(b, st, c, k2)

    def btype(self, n):
        t = ctype(n)
        if 'element_type' in t:
            while n.get('kind') in SKIP1 or n.get('kind') == 'ImplicitCastExpr':
                n = self.inner(n)[0]
            if n.get('kind') == 'CXXOperatorCallExpr':
                return ctype(self.inner(n)[1])
        return t

    def pointee(self, p, bt, s, c, what):
        cls = cls_of_type(bt)
        if p.x and isinstance(p.x, tuple) and p.x[0] == 'lv':
            return p, cls
        if p is not c.f.this and not (p.x == 'safe'):
            p = self.short(p, 'p')
            self.deref_ok(s, p.t, cls, '%s: valid pointer for ->%s' % (c.f.fn.qname if c.f.fn else '?', what))
        return p, cls

    def fieldlv(self, own, name, p, t):
        own = own.split('::')[-1] if '<' not in own else cid(own)
        if own.startswith('pair_') or own.startswith('std_pair_') or own.startswith('_Rb'):
            own = 'pair_' + mty(t, self.db)
        if own.startswith('KeyValuePair_'):
            own = 'kvp_' + mty(t, self.db)
        if own == '':
            own = 'anon'
        ty = mty(t, self.db)
        rec = self.db.records.get(own) or self.db.records.get(norm(t))
        if re.search(r'DataType$', norm(t)):    # embedded union: same address
            return V(p.t, 'ref', t)
        f = self.field('%s_%s' % (own, name), 'Map<int,%s>' % VT[ty])
        if ty == 'ref' and not is_ptr(t) and 'std::function' not in norm(t) and norm(t) not in ('Action', 'FuncX'):
            # embedded object: the field holds the address of the part
            return LV('field', (f, p.t), ty, t)
        return LV('field', (f, p.t), ty, t)

    # ------------------------------------------------------------------------------------------ casts
    def e_ImplicitCastExpr(self, n, st, c, k):
        ck = n.get('castKind')
        ch = self.inner(n)[0]
        return self.cast(ck, n, ch, st, c, k)

    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, ck, n, ch, st, c, k):
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion',
                  'UserDefinedConversion', 'BuiltinFnToFnPtr', 'Dependent'):
            return self.ev(ch, st, c, k)
        if ck == 'LValueToRValue':
            return self.rv(ch, st, c, k)
        if ck == 'ToVoid':
            return self.ev(ch, st, c, lambda x, s: k(V('0', 'void'), s))
        if ck == 'NullToPointer':
            return k(V('0', 'ref', 'nullptr_t'), st)

        def k2(v, s):
            tt, ft = ctype(n), ctype(ch)
            if ck == 'IntegralCast':
                return k(self.intcast(v, ft, tt), s)
            if ck == 'IntegralToBoolean':
                return k(V('(%s != 0)' % v.t, 'bool', 'bool'), s)
            if ck == 'PointerToBoolean':
                return k(V('(%s != 0)' % v.t, 'bool', 'bool'), s)
            if ck == 'FloatingToBoolean':
                return k(V('!d_eq(%s, d_of(0int))' % v.t, 'bool', 'bool'), s)
            if ck == 'IntegralToFloating':
                t = v.t if v.ty == 'int' else '(if %s { 1int } else { 0int })' % v.t
                return k(V('d_of(%s)' % t, 'D', 'double'), s)
            if ck == 'FloatingToIntegral':
                rt = irange(norm(tt)) or (-2**31, 2**31 - 1)
                self.assume('%d <= d_toi(%s) <= %d' % (rt[0], v.t, rt[1]))
                return k(V('d_toi(%s)' % v.t, 'int', tt), s)
            if ck == 'FloatingCast':
                return k(v, s)
            if ck == 'BitCast':
                return k(v, s)
            raise Break('cast %s' % ck)
        return self.rv(ch, st, c, k2)

    def intcast(self, v, ft, tt):
        t = norm(tt)
        if v.ty == 'bool':
            return V('(if %s { 1int } else { 0int })' % v.t, 'int', tt)
        if v.ty == 'D':
            raise Break('cast')
        rt = irange(t) or (-2**31, 2**31 - 1)
        if re.match(r'^\(?-?\d+\)?$', v.t):
            x = int(v.t.strip('()'))
            lo, hi = rt
            x = (x - lo) % (hi - lo + 1) + lo
            return V(str(x) if x >= 0 else '(%d)' % x, 'int', tt)
        rf = irange(ft)
        if rf and rt[0] <= rf[0] and rf[1] <= rt[1]:
            return V(v.t, 'int', tt)
        if norm(ft).split('::')[-1] in self.db.enums or t.split('::')[-1] in self.db.enums:
            return V(v.t, 'int', tt)
        if t not in WN:
            raise Break('integral cast to ' + t)
        return V('%s(%s)' % (WN[t], v.t), 'int', tt)

    # ------------------------------------------------------------------------------------------ operators
    def pure_trial(self, n, st, c):
        """evaluate quietly: does it have one path, no effect and no exception?"""
        res = []
        thrown = []
        snap = (self.quiet, self.nfresh, self.npaths, self.rec, self.cells)
        self.quiet += 1
        rec = set()
        self.rec = self.rec + [rec]
        before = self.npaths
        gb = getattr(self, 'nguards', 0)
        cc = c.but(thr=lambda *a: thrown.append(1))
        try:
            self.ev(n, st, cc, lambda x, s: res.append((x, s)))
        finally:
            nb = self.npaths - before
            ng = getattr(self, 'nguards', 0) - gb
            self.quiet, self.nfresh, self.npaths, self.rec, self.cells = snap
        return len(res) == 1 and not thrown and nb == 0 and ng == 0 and not rec and res[0][1].h == st.h

    def pure_eval(self, n, st, c, guard):
        res = []
        self.guards = getattr(self, 'guards', [])
        self.guards.append(guard)
        self.ev(n, st, c, lambda x, s: res.append(self.load(x, s)))
        self.guards.pop()
        assert len(res) == 1
        return res[0]

    def check(self, cond, label, hint=None):
        g = getattr(self, 'guards', None)
        if g and cond != 'true':
            cond = '(%s) ==> (%s)' % (') && ('.join(g), cond)
        Engine.check(self, cond, label, hint)

    def node(self, st, p):
        Engine.node(self, st, p)

    def guard(self, cond, k):
        self.nguards = getattr(self, 'nguards', 0) + 1
        Engine.guard(self, cond, k)

    def e_BinaryOperator(self, n, st, c, k):
        op = n['opcode']
        a, b = self.inner(n)
        if op in ('==', '!='):
            # identity of the argument that stands for "no argument": it is a value of its own in the model
            def amp(x):
                while x.get('kind') in SKIP1 or x.get('kind') == 'ImplicitCastExpr':
                    x = self.inner(x)[0]
                return self.inner(x)[0] if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&' else None
            xa, xb = amp(a), amp(b)
            if xa is not None and xb is not None and mty(ctype(xa), self.db) == 'str':
                if 's_missing()' in [self.spec['globals'].get(self.qvar(x['referencedDecl'], c)[0]) for x in (xa, xb) if x.get('kind') == 'DeclRefExpr']:
                    return self.rv(xa, st, c, lambda x, s: self.rv(xb, s, c, lambda y, s2: k(V('(%s %s %s)' % (x.t, op, y.t), 'bool', 'bool'), s2)))
        if op in ('&&', '||'):
            def k1(x, s):
                x = self.short(x, 'c')
                if x.t == ('false' if op == '&&' else 'true'):
                    return k(x, s)
                if x.t == ('true' if op == '&&' else 'false'):
                    return self.rv(b, s, c, k)
                g = x.t if op == '&&' else '!(%s)' % x.t
                if self.pure_trial(b, s, c):
                    y = self.pure_eval(b, s, c, g)
                    if y.t == ('false' if op == '&&' else 'true'):
                        return k(y, s)
                    return k(V('(%s %s %s)' % (x.t, op, y.t), 'bool', 'bool'), s)
                if op == '&&':
                    self.branch(x.t, lambda: self.rv(b, s, c, k), lambda: k(V('false', 'bool', 'bool'), s))
                else:
                    self.branch(x.t, lambda: k(V('true', 'bool', 'bool'), s), lambda: self.rv(b, s, c, k))
            return self.rv(a, st, c, k1)
        if op == ',':
            return self.ev(a, st, c, lambda x, s: self.ev(b, s, c, k))
        if op == '=':
            def k1(y, s):
                def k2(x, s2):
                    if isinstance(x, V):
                        return self.assign_obj(x, y, s2, c, k, ctype(a))
                    s3 = self.store(x, self.convto(y, x), s2)
                    k(x, s3)
                self.ev(a, s, c, k2)
            return self.rv(b, st, c, k1)

        def k1(x, s):
            x = self.short(x, 'x')
            self.rv(b, s, c, lambda y, s2: k(self.binop(op, x, y, ctype(n), ctype(a), ctype(b), c), s2))
        return self.rv(a, st, c, k1)

    def convto(self, v, lv):
        return v

    def binop(self, op, x, y, t, ta, tb, c):
        if op in ('==', '!='):
            if x.ty == 'ref' and y.ty == 'ref' and re.match(r'^\d+$', x.t) and re.match(r'^\d+$', y.t):
                return V('true' if (int(x.t) == int(y.t)) == (op == '==') else 'false', 'bool', 'bool')
            if x.ty == 'D' or y.ty == 'D':
                r = 'd_eq(%s, %s)' % (x.t, y.t)
                return V(r if op == '==' else '!' + r, 'bool', 'bool')
            if x.ty == 'bool' and y.ty == 'int':
                x = V('(if %s { 1int } else { 0int })' % x.t, 'int')
            if y.ty == 'bool' and x.ty == 'int':
                y = V('(if %s { 1int } else { 0int })' % y.t, 'int')
            return V('(%s %s %s)' % (x.t, op, y.t), 'bool', 'bool')
        if op in ('<', '>', '<=', '>='):
            if x.ty == 'D' or y.ty == 'D':
                f = {'<': 'd_lt(%s, %s)' % (x.t, y.t), '>': 'd_lt(%s, %s)' % (y.t, x.t), '<=': 'd_le(%s, %s)' % (x.t, y.t), '>=': 'd_le(%s, %s)' % (y.t, x.t)}
                return V(f[op], 'bool', 'bool')
            return V('(%s %s %s)' % (x.t, op, y.t), 'bool', 'bool')
        if x.ty == 'D' or y.ty == 'D':
            f = {'+': 'd_add', '-': 'd_sub', '*': 'd_mul', '/': 'd_div'}
            return V('%s(%s, %s)' % (f[op], x.t, y.t), 'D', 'double')
        if x.ty == 'ref' or y.ty == 'ref' or x.ty == 'str' or y.ty == 'str':
            raise Break('pointer arithmetic')
        if x.ty == 'iter' or y.ty == 'iter':
            raise Break('iterator arithmetic')
        if x.ty == 'bool':
            x = V('(if %s { 1int } else { 0int })' % x.t, 'int')
        if y.ty == 'bool':
            y = V('(if %s { 1int } else { 0int })' % y.t, 'int')
        return self.intop(op, x, y, t, c)

    def intop(self, op, x, y, t, c):
        nt = norm(t)
        r = irange(nt)
        if r is None:
            raise Break('integer operation of type %s' % nt)
        signed = r[0] < 0
        fn = c.f.fn.qname if c.f.fn else '?'
        if op in ('+', '-', '*'):
            e = '%s %s %s' % (x.t, op, y.t)
            if op == '*':
                e = 'mulx(%s, %s)' % (x.t, y.t) if not (re.match(r'^\d+$', x.t) or re.match(r'^\d+$', y.t)) else e
            if signed:
                self.check('%d <= %s <= %d' % (r[0], e, r[1]), '%s: no signed overflow in %s' % (fn, op))
                return V('(%s)' % e, 'int', t)
            return V('%s(%s)' % (WN[nt], e), 'int', t)
        if op in ('/', '%'):
            self.check('%s != 0' % y.t, '%s: division by zero' % fn)
            if signed:
                self.check('!(%s == %d && %s == -1)' % (x.t, r[0], y.t), '%s: division overflow' % fn)
                return V('%s(%s, %s)' % ('tdiv' if op == '/' else 'tmod', x.t, y.t), 'int', t)
            return V('(%s %s %s)' % (paren(x.t), op, paren(y.t)), 'int', t)
        if op in ('<<', '>>'):
            bits = 64 if r[1] > 2**32 else 32
            self.check('0 <= %s < %d' % (y.t, bits), '%s: shift count in range' % fn)
            return V('%s_%s(%s, %s)' % ('shl' if op == '<<' else 'shr', ('i' if signed else 'u') + str(bits), x.t, y.t), 'int', t)
        if op in ('&', '|', '^'):
            return V('%s_%s(%s, %s)' % ({'&': 'bitand', '|': 'bitor', '^': 'bitxor'}[op], 'i' if signed else 'u', x.t, y.t), 'int', t)
        raise Break('operator ' + op)

    def e_CompoundAssignOperator(self, n, st, c, k):
        op = n['opcode'][:-1]
        a, b = self.inner(n)

        def k1(y, s):
            def k2(x, s2):
                cur = self.load(x, s2)
                if cur.ty == 'int' and y.ty == 'D':
                    raise Break('mixed compound assignment')
                tt = (n.get('computeResultType') or {}).get('desugaredQualType') or (n.get('computeResultType') or {}).get('qualType') or ctype(a)
                r = self.binop(op, cur, y, tt, ctype(a), ctype(b), c)
                if r.ty == 'int' and norm(tt) != norm(ctype(a)):
                    r = self.intcast(r, tt, ctype(a))
                r = self.short(r, 'v')
                k(x, self.store(x, r, s2))
            self.ev(a, s, c, k2)
        return self.rv(b, st, c, k1)

    def e_UnaryOperator(self, n, st, c, k):
        op = n['opcode']
        a = self.inner(n)[0]
        if op in ('++', '--'):
            def k1(x, s):
                v = self.load(x, s)
                if v.ty == 'iter':
                    nv = V('%s %s 1' % (v.t, op[0]), 'iter', v.ct, v.x)
                else:
                    nv = self.intop(op[0], v, V('1', 'int'), ctype(a), c)
                nv = self.short(nv, 'n')
                s2 = self.store(x, nv, s)
                k(v if n.get('isPostfix') else x, s2)
            return self.ev(a, st, c, k1)
        if op == '!':
            return self.rv(a, st, c, lambda v, s: k(V('!%s' % paren2(v.t), 'bool', 'bool'), s))
        if op == '-':
            def k1(v, s):
                if v.ty == 'D':
                    return k(V('d_neg(%s)' % v.t, 'D', 'double'), s)
                if re.match(r'^\d+$', v.t):
                    return k(V('(-%s)' % v.t, 'int', ctype(n)), s)
                k(self.intop('-', V('0', 'int'), v, ctype(n), c), s)
            return self.rv(a, st, c, k1)
        if op == '+':
            return self.rv(a, st, c, k)
        if op == '~':
            return self.rv(a, st, c, lambda v, s: k(V('(-1 - %s)' % v.t, 'int', ctype(n)), s))
        if op == '*':
            def k1(p, s):
                if p.x and isinstance(p.x, tuple) and p.x[0] == 'lv':
                    return k(p.x[1], s)
                if p.ty == 'iter':
                    return k(self.deref_it(p, s, c), s)
                if p.ty == 'str' and norm(ctype(n)) == 'char':
                    return k(V('s_at(%s, 0)' % p.t, 'int', 'char'), s)   # a zero character ends the text
                if p.ty == 'str' and mty(ctype(n), self.db) == 'str':
                    return k(p, s)                                       # address of a constant string
                p, cls = self.pointee(p, self.btype(a), s, c, '*')
                k(self.deref_cls(p, cls), s)
            return self.rv(a, st, c, k1)
        if op == '&':
            def k1(x, s):
                if isinstance(x, LV) and not (x.ty == 'ref' and not is_ptr(x.ct)):
                    return k(V('1', 'ref', ctype(n), ('lv', x)), s)
                v = self.load(x, s)
                k(V(v.t, 'ref', ctype(n)), s)
            return self.ev(a, st, c, k1)
        raise Break('unary ' + op)

    def e_ConditionalOperator(self, n, st, c, k):
        q, a, b = self.inner(n)
        ref = n.get('valueCategory') == 'lvalue' and mty(ctype(n), self.db) not in ('ref',)

        def k1(x, s):
            x = self.short(x, 'c')
            if self.pure_trial(a, s, c) and self.pure_trial(b, s, c):
                ya = self.pure_eval(a, s, c, x.t)
                yb = self.pure_eval(b, s, c, '!(%s)' % x.t)
                if ya.ty == yb.ty and ya.x is None and yb.x is None:
                    return k(V('(if %s { %s } else { %s })' % (x.t, tint(ya.t), tint(yb.t)), ya.ty, ctype(n)), s)
            self.branch(x.t, lambda: self.rv(a, s, c, k), lambda: self.rv(b, s, c, k))
        return self.rv(q, st, c, k1)

    def e_ArraySubscriptExpr(self, n, st, c, k):
        a, b = self.inner(n)

        def k1(x, s):
            self.rv(b, s, c, lambda i, s2: k(self.index_str(x, i, s2, c), s2))
        return self.ev(a, st, c, k1)

    def e_MaterializeTemporaryExpr(self, n, st, c, k):
        self.ev(self.inner(n)[0], st, c, k)

    def e_CXXDefaultArgExpr(self, n, st, c, k):
        raise Break('default argument')

    def e_InitListExpr(self, n, st, c, k):
        self.init_list(n, st, c, k)

    def e_CXXStdInitializerListExpr(self, n, st, c, k):
        self.ev(self.inner(n)[0], st, c, k)

    def e_CXXDefaultInitExpr(self, n, st, c, k):
        raise Break('default initialiser')

    # ------------------------------------------------------------------------------------------ exceptions
    def e_CXXThrowExpr(self, n, st, c, k):
        i = self.inner(n)
        if not i:
            if c.exc is None:
                raise Break('rethrow outside of a handler')
            return c.thr(c.exc[0], c.exc[1], st)

        def k1(v, s):
            kind = norm(ctype(i[0]))
            c.thr(kind, v, s)
        self.rv(i[0], st, c, k1)

    # ------------------------------------------------------------------------------------------ lambda
    def e_LambdaExpr(self, n, st, c, k):
        ins = self.inner(n)
        rec = ins[0]
        body = ins[-1]
        caps = ins[1:-1]
        f = Frame(c.f.fn, c.f.tu, c.f.this, c.f)
        fields = [x for x in self.inner(rec) if x['kind'] == 'FieldDecl']
        captured = []
        for fd, ini in zip(fields, caps):
            captured.append(None)
            y = ini
            while y['kind'] not in ('DeclRefExpr', 'CXXThisExpr'):
                y = self.inner(y)[0]
            if y['kind'] == 'CXXThisExpr':
                continue
            rid = y['referencedDecl']['id']
            if '&' in fd['type']['qualType'][-2:]:
                continue
            cell = self.newcell()
            src = c.f.vars.get(rid)
            if src is None:
                continue
            v = self.load(src, st)
            # a captured class object is copied
            captured[-1] = v
            st = st.w(cell, v)
            f.vars[rid] = LV('cell', cell, v.ty, v.ct)
            f.names[y['referencedDecl']['name']] = f.vars[rid]
        op = [x for x in self.inner(rec) if x.get('name') == 'operator()']
        params = [p for p in self.inner(op[0]) if p['kind'] == 'ParmVarDecl'] if op else []
        cls = 'std::function<void(std::shared_ptr<object>)>'
        if [ctype(p).replace(' ', '').replace('CppLisp::', '') for p in params] == ['std::shared_ptr<object>'] and cls in self.spec.get('classes', []):
            nm, st = self.alloc(st, cls)
        else:
            nm = self.fresh('lam', 'int')
            self.req('0 < %s' % nm)
        # what the function object captured: its code and the values
        if c.f.fn is not None and op:
            o = self.db.lambda_ord(c.f.fn, n)
            if o:
                (self.req if nm.startswith('lam') else self.assume)('lam_id(%s) == %s' % (nm, self.fnid('%s::lambda:%d' % (c.f.fn.qname, o))))
                for i, v in enumerate(captured):
                    if v is not None and v.ty in ('int', 'ref'):
                        self.assume('lam_cap(%s, %d) == %s' % (nm, i, v.t))
        k(V(nm, 'ref', 'lambda', ('lam', params, body, f, op[0]['type']['qualType'] if op else '')), st)

    def call_lambda(self, lam, args, st, c, k):
        _, params, body, f0, ty = lam
        f = Frame(f0.fn, f0.tu, f0.this, f0)
        st = self.bind(params, args, st, f)
        if len(self.stack) > 25:
            raise Break('call depth')
        self.stack.append('lambda')
        rt = ty.split('->')[-1] if '->' in ty else ty.split('(')[0]

        def kr(v, s):
            self.stack.pop()
            try:
                k(v if v is not None else V('0', 'void'), s)
            finally:
                self.stack.append('lambda')
        cc = Ctx(f, kr, c.thr)
        cc = cc.but(ret=kr)
        try:
            self.ex(body, st, cc, lambda s: kr(None, s))
        finally:
            self.stack.pop()

    # ------------------------------------------------------------------------------------------ calls
    def argnodes(self, ns, fn, c):
        """replaces default arguments by their expression"""
        out = []
        for i, a in enumerate(ns):
            if a['kind'] == 'CXXDefaultArgExpr':
                out.append(('default', i))
            else:
                out.append(a)
        return out

    def evargs(self, ns, fnode, ftu, st, c, k, acc=()):
        if not ns:
            return k(list(acc), st)
        a = ns[0]
        if a['kind'] == 'CXXDefaultArgExpr':
            if self.inner(a):
                return self.ev(self.inner(a)[0], st, c, lambda x, s: self.evargs(ns[1:], fnode, ftu, s, c, k, acc + (x,)))
            i = len(acc)
            d = self.default_arg(fnode, ftu, i)
            if d is None:
                if not fnode.get('mangledName') and all(x['kind'] == 'CXXDefaultArgExpr' for x in ns):
                    return k(list(acc), st)     # a function of the library: its model knows the defaults
                raise Break('default argument not found')
            tu, node = d
            f = Frame(c.f.fn, tu, None)
            cc = Ctx(f, None, c.thr)
            return self.ev(node, st, cc, lambda x, s: self.evargs(ns[1:], fnode, ftu, s, c, k, acc + (x,)))
        self.ev(a, st, c, lambda x, s: self.evargs(ns[1:], fnode, ftu, s, c, k, acc + (x,)))

    def default_arg(self, fnode, ftu, i):
        seen = 0
        n = fnode
        while n is not None and seen < 5:
            ps = [p for p in self.inner(n) if p['kind'] == 'ParmVarDecl']
            if i < len(ps):
                ini = [x for x in self.inner(ps[i]) if x['kind'] not in ('FullComment',)]
                if ini:
                    return ftu, ini[0]
            n = ftu.decl.get(n.get('previousDecl'))
            seen += 1
        # look for a declaration of the same function
        mg = fnode.get('mangledName')
        if mg is None:
            return None
        for t in [ftu] + list(self.db.tus.values()):
            for d in t.decl.values():
                if d.get('mangledName') == mg and d is not fnode:
                    ps = [p for p in self.inner(d) if p['kind'] == 'ParmVarDecl']
                    if i < len(ps):
                        ini = [x for x in self.inner(ps[i]) if x['kind'] not in ('FullComment',)]
                        if ini:
                            return t, ini[0]
        return None

    def target(self, did, c):
        """declaration id -> (Fn or None, declaration node or None)"""
        d = c.f.tu.decl.get(did)
        if d is None:
            return None, None
        f = self.db.fn.get(d.get('mangledName'))
        if f is not None and f.tu is not c.f.tu and False:
            pass
        return f, d

    def e_CXXMemberCallExpr(self, n, st, c, k):
        ins = self.inner(n)
        callee, args = ins[0], ins[1:]
        while callee['kind'] in SKIP1 or callee['kind'] == 'ImplicitCastExpr':
            callee = self.inner(callee)[0]
        if callee['kind'] != 'MemberExpr':
            raise Break('member call through ' + callee['kind'])
        base = self.inner(callee)[0]
        did = callee.get('referencedMemberDecl')
        fn, d = self.target(did, c)

        def kb(x, s):
            if callee.get('isArrow'):
                p = self.load(x, s)
                if is_ptr(ctype(base)) or True:
                    p, cls = self.pointee(p, self.btype(base), s, c, callee['name'])
                this = p
                if p.x and isinstance(p.x, tuple) and p.x[0] == 'lv':
                    this = p.x[1]
            else:
                this = x
                cls = cls_of_type(ctype(base)) if not norm(ctype(base)).startswith(('std::shared_ptr<', 'shared_ptr<')) else 'shared_ptr'
                if isinstance(x, LV) and x.ty == 'ref' and cls != 'shared_ptr' and not is_ptr(ctype(base)):
                    this = self.load(x, s)
            if callee['name'] in ('get', 'operator bool', 'reset') and re.match(r'(std::)?(__)?shared_ptr<.*>( \*)?$', norm(ctype(base))):
                cls = 'shared_ptr'

            def ka(av, s2):
                if fn is not None or self.has_contract(d, c):
                    return self.call(fn, d, this, av, s2, c, k, n)
                return self.lib_method(cls, callee['name'].replace('operator ', 'operator '), this, av, s2, c, k, n, args)
            self.evargs(args, d or {}, c.f.tu, s, c, ka)
        self.ev(base, st, c, kb)

    def has_contract(self, d, c):
        return d is not None and self.contract_of(d, c) is not None

    def contract_of(self, d, c):
        q = self.db.cls_of(c.f.tu, d)
        q = (q + '::' if q else '') + d.get('name', '')
        ct = self.cmap.get((q, d['type']['qualType']))
        if ct is None and q in self.spec.get('ext', {}):
            ct = self.spec['ext'][q]
        return ct

    def e_CXXOperatorCallExpr(self, n, st, c, k):
        ins = self.inner(n)
        cal = ins[0]
        while cal['kind'] != 'DeclRefExpr':
            cal = self.inner(cal)[0]
        rd = cal['referencedDecl']
        args = ins[1:]
        fn, d = self.target(rd['id'], c)
        name = rd['name']

        def ka(av, s):
            if fn is not None or self.has_contract(d, c):
                if (d or {}).get('kind') == 'CXXMethodDecl' and not (d or {}).get('storageClass') == 'static':
                    this = av[0]
                    if isinstance(this, LV) and this.ty == 'ref' and not is_ptr(this.ct):
                        this = self.load(this, s)
                    # a lambda called directly
                    if isinstance(this, V) and this.x and isinstance(this.x, tuple) and this.x[0] == 'lam':
                        return self.call_lambda(this.x, av[1:], s, c, k)
                    return self.call(fn, d, this, av[1:], s, c, k, n)
                return self.call(fn, d, None, av, s, c, k, n)
            return self.lib_op(name, args, av, s, c, k, n)
        self.evargs(args, d or {}, c.f.tu, st, c, ka)

    def e_CallExpr(self, n, st, c, k):
        ins = self.inner(n)
        cal = ins[0]
        while cal['kind'] in SKIP1 or cal['kind'] == 'ImplicitCastExpr':
            cal = self.inner(cal)[0]
        args = ins[1:]
        if cal['kind'] == 'DeclRefExpr' and cal['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            rd = cal['referencedDecl']
            fn, d = self.target(rd['id'], c)

            def ka(av, s):
                if fn is not None or self.has_contract(d, c):
                    return self.call(fn, d, None, av, s, c, k, n)
                return self.lib_call(rd['name'], args, av, s, c, k, n)
            return self.evargs(args, d or {}, c.f.tu, st, c, ka)
        if cal['kind'] == 'MemberExpr':      # static member function through an object
            fn, d = self.target(cal.get('referencedMemberDecl'), c)
            if fn is not None:
                return self.evargs(args, d, c.f.tu, st, c, lambda av, s: self.call(fn, d, None, av, s, c, k, n))
        # call through a function pointer
        def kf(f, s):
            def ka(av, s2):
                if f.x and isinstance(f.x, tuple) and f.x[0] == 'lam':
                    return self.call_lambda(f.x, av, s2, c, k)
                if f.x and isinstance(f.x, tuple) and f.x[0] == 'fn':
                    return self.call_fnref(f.x, args, av, s2, c, k, n)
                raise Break('call through a pointer')
            self.evargs(args, {}, c.f.tu, s, c, ka)
        self.rv(cal, st, c, kf)

    def call_fnref(self, x, args, av, st, c, k, n):
        _, rd, tu = x
        d = tu.decl.get(rd['id'])
        fn = self.db.fn.get(d.get('mangledName')) if d else None
        if fn is not None:
            return self.call(fn, d, None, av, st, c, k, n)
        return self.lib_call(rd['name'], args, av, st, c, k, n)

    def bind(self, params, args, st, f):
        for p, a in zip(params, args):
            t = p['type']['qualType']
            tt = ctype(p)
            if t.rstrip().endswith('&') and isinstance(a, LV):
                f.vars[p['id']] = a
                if p.get('name'):
                    f.names[p['name']] = a
                continue
            if isinstance(a, LV):
                a = self.load(a, st)
            cell = self.newcell()
            v = V(a.t, a.ty, tt, a.x)
            want = mty(tt, self.db)
            if want == 'D' and v.ty == 'int':
                v = V('d_of(%s)' % v.t, 'D', tt)
            if want in ('bool',) and v.ty == 'int':
                v = V('(%s != 0)' % v.t, 'bool', tt)
            st = st.w(cell, v)
            lv = LV('cell', cell, v.ty, tt)
            f.vars[p['id']] = lv
            if p.get('name'):
                f.names[p['name']] = lv
        return st

    def call(self, fn, d, this, args, st, c, k, n):
        ct = self.cmap.get((fn.qname, fn.type)) if fn else None
        if ct is None and d is not None:
            ct = self.contract_of(d, c)
        if fn is not None and fn.node['kind'] == 'CXXMethodDecl' and fn.node.get('storageClass') == 'static':
            this = None
        if ct is not None and not (ct is self.con and not self.stack and False):
            return self.apply(ct, fn, d, this, args, st, c, k)
        if fn is None:
            raise Break('function without body: %s' % (d or {}).get('name'))
        if self.spec.get('noinline') and fn.qname in self.spec['noinline']:
            raise Break('no contract for %s' % fn.qname)
        if self.stack.count(fn.qname) >= 1 or len(self.stack) > 25:
            raise Break('recursion without contract: %s' % fn.qname)
        return self.inline(fn, this, args, st, c, k)

    def inline(self, fn, this, args, st, c, k, init=None):
        self.inlined.add(fn.qname)
        if isinstance(this, LV) and this.ty != 'str':
            this = self.load(this, st)
        th = this
        if isinstance(this, LV):        # string method: the object is an lvalue
            th = V('1', 'ref', '', ('lv', this))
        elif isinstance(this, V) and this.ty == 'str':
            cell = self.newcell()
            st = st.w(cell, this)
            th = V('1', 'ref', '', ('lv', LV('cell', cell, 'str', 'string')))
        f = Frame(fn, fn.tu, th)
        st = self.bind(fn.params, args, st, f)
        rt = fn.type.split('(')[0].strip() if '->' not in fn.type else fn.type.split('->')[-1].strip()
        depth = list(self.stack)
        self.stack.append(fn.qname)

        def kr(v, s):
            sv = self.stack
            self.stack = list(depth)
            try:
                k(v if v is not None else V('0', 'void'), s)
            finally:
                self.stack = sv

        def thr(kind, v, s):
            sv = self.stack
            self.stack = list(depth)
            try:
                c.thr(kind, v, s)
            finally:
                self.stack = sv
        f.rtype = rt
        cc = Ctx(f, kr, thr)
        try:
            if init:
                init(st, cc, lambda s: self.ex(fn.body, s, cc, lambda s2: kr(None, s2)))
            else:
                self.ex(fn.body, st, cc, lambda s: kr(None, s))
        finally:
            self.stack = depth

    # ------------------------------------------------------------------------------------------ contracts
    def subst(self, text, m):
        def r(x):
            key = x.group(0)
            if key not in m:
                raise HardBreak('unknown name %s in a contract of %s' % (key, self.con.key))
            return paren(m[key])
        return re.sub(r'\$[A-Za-z_0-9]+', r, self.lits(text))

    def lits(self, text):
        if 'LIT' not in text:
            return text
        text = re.sub(r'LIT\("((?:[^"\\]|\\.)*)"\)', lambda m: self.strlit(unescape('"' + m.group(1) + '"')), text)
        return re.sub(r'DLIT\(([-0-9.e]+)\)', lambda m: self.dlit(m.group(1)), text)

    def apply(self, ct, fn, d, this, args, st, c, k):
        self.used_contracts.add(ct.key)
        m = {}
        params = fn.params if fn else [p for p in self.inner(d) if p['kind'] == 'ParmVarDecl']
        lvs = []
        if this is not None:
            tv = self.load(this, st)
            if tv.x and isinstance(tv.x, tuple) and tv.x[0] == 'lv':
                lvthis = tv.x[1]
                tv = self.load(lvthis, st)
            m['$self'] = tv.t
        for i, a in enumerate(args):
            v = self.load(a, st)
            v = self.short(v, 'g')
            m['$%d' % (i + 1)] = v.t
            lvs.append(a)
        h = st.h
        m['$h'] = h
        m['$h0'] = h
        for hint in self.con.at.get(ct.key, ()):
            mm = dict(self.cmapping)
            mm.update({'$c' + x[1:]: y for x, y in m.items()})
            mm['$h'] = h
            self.out(self.subst(hint, mm))
        for r in ct.requires:
            self.check(self.subst(r, m), '%s: precondition of %s [%s]' % (self.where(c), ct.key, r[:60]))
        for hint in ct.hints.get('call', ()):
            self.out(self.subst(hint, m))
        rt = ct.resty
        ft = (fn.type if fn else d['type']['qualType'])
        if rt is None:
            rt = ft.split('(')[0].strip() if '->' not in ft else ft.split('->')[-1].strip()
        isctor = (fn.node['kind'] if fn else d['kind']) == 'CXXConstructorDecl'

        def normal():
            s = st
            mm = dict(m)
            if ct.mode == 'pure':
                mm['$h1'] = h
                if ct.result is not None:
                    r = V(self.subst(ct.result, mm), mty(rt, self.db), rt)
                    r = self.short(r, 'r')
                elif norm(rt) == 'void' or isctor:
                    r = V('0', 'void')
                else:
                    r = self.freshv('r', rt)
                conds = []
            else:
                h1 = self.fresh('hc', 'H')
                mm['$h1'] = h1
                conds = [self.framecond(ct, mm, h, h1)]
                if ct.wf and self.spec.get('node'):
                    conds.append('hwf(%s)' % h1)
                s = St(st.env, h1, h1)
                for f in self.allfields(ct):
                    self.record(('heap', f))
                if ct.result is not None:
                    r = V(self.subst(ct.result, mm), mty(rt, self.db), rt)
                elif norm(rt) == 'void' or isctor:
                    r = V('0', 'void')
                else:
                    r = self.freshv('r', rt)
            mm['$r'] = r.t
            for o in ct.out:
                nv = self.freshv('o', lvs[o - 1].ct if isinstance(lvs[o - 1], LV) else params[o - 1]['type']['qualType'])
                mm['$o%d' % o] = nv.t
                s = self.store(lvs[o - 1], nv, s)
            for o in ct.outp:
                a = self.load(lvs[o - 1], s)
                pt = norm(ctype(params[o - 1]))[:-1].strip()
                if a.x and isinstance(a.x, tuple) and a.x[0] == 'lv':
                    nv = self.freshv('o', pt)
                    s = self.store(a.x[1], V(nv.t, nv.ty, pt), s)
                elif a.t == '0':
                    nv = self.freshv('o', pt)
                else:
                    raise Break('output pointer')
                mm['$o%d' % o] = nv.t
            if ct.mode == 'selfstr':
                nv = self.freshv('o', 'string')
                mm['$oself'] = nv.t
                s = self.store(this, nv, s)
            conds += [self.subst(e, mm) for e in ct.ensures]
            if mty(rt, self.db) == 'ref' and not is_ptr(rt) and norm(rt) != 'void' and ct.fresh_ok if hasattr(ct, 'fresh_ok') else False:
                pass
            cond = ' && '.join('(%s)' % x for x in conds if x != 'true')
            def after():
                for hint in self.con.at.get('after:' + ct.key, ()):
                    m2 = dict(self.cmapping)
                    m2.update({'$c' + x[1:]: y for x, y in mm.items()})
                    m2['$h'] = s.h
                    self.out(self.subst(hint, m2))
                if ct.mode == 'any':
                    old = self.cmapping.get('$hp')
                    self.cmapping['$hp'] = s.h      # the heap after the last call of this kind
                    k(r, s)
                    self.cmapping['$hp'] = old
                else:
                    k(r, s)
            self.guard(cond or 'true', after)

        def raising(i):
            if i == len(ct.raises):
                return normal()
            kinds, cond = ct.raises[i]
            ec = self.subst(cond, m) if cond is not None else None

            def doraise():
                for kd in kinds:
                    if ct.mode == 'pure':
                        if len(kinds) > 1:
                            z = self.fresh('z', 'bool')
                            self.guard(z, lambda: c.thr(kd, V('0', 'ref', kd), st))
                        else:
                            c.thr(kd, V('0', 'ref', kd), st)
                    else:
                        h1 = self.fresh('hx', 'H')
                        mm = dict(m)
                        mm['$h1'] = h1
                        for f in self.allfields(ct):
                            self.record(('heap', f))
                        conds = [self.framecond(ct, mm, h, h1)]
                        if ct.wf and self.spec.get('node'):
                            conds.append('hwf(%s)' % h1)
                        conds += [self.subst(e, mm) for e in ct.ensures_raise]
                        self.guard(' && '.join('(%s)' % x for x in conds), lambda: c.thr(kd, V('0', 'ref', kd), St(st.env, h1, h1)))
            if ec is not None and ct.exact:
                self.branch(ec, doraise, lambda: raising(i + 1))
            else:
                z = self.fresh('z', 'bool')
                self.branch(z if ec is None else '%s && (%s)' % (z, ec), doraise, lambda: raising(i + 1))
        raising(0)

    def allfields(self, ct):
        return list(self.fields)

    def framecond(self, ct, m, h, h1):
        if ct.mode == 'alloc' and not ct.modifies:
            return 'ext(%s, %s)' % (h, h1)
        if ct.mode == 'any':
            return 'grow(%s, %s)' % (h, h1)
        parts = ['grow(%s, %s)' % (h, h1)]
        mod = {}
        for x in ct.modifies:
            f, a = x.split('@')
            mod.setdefault(f, []).append(a)
        for f, t in sorted(self.fields.items()):
            if f in ('alloc', 'cls'):
                continue
            if f in mod:
                if '*' in mod[f]:
                    continue
                ex = ' && '.join('a != %s' % paren(self.subst(a, m)) for a in mod[f])
                parts.append('(forall|a: int| #![trigger %s.%s[a]] 0 <= a < %s.alloc && %s ==> %s.%s[a] == %s.%s[a])' % (h1, f, h, ex, h1, f, h, f))
            else:
                parts.append('same_%s(%s, %s)' % (f, h, h1))
        return ' && '.join(parts)

    def where(self, c):
        return c.f.fn.qname if c.f and c.f.fn else '?'

    # ------------------------------------------------------------------------------------------ statements
    def ex(self, n, st, c, k):
        kind = n.get('kind')
        m = getattr(self, 's_' + kind, None)
        if m is not None:
            return self.soft(lambda k: m(n, st, c, k), k, c)
        if kind.endswith('Expr') or kind.endswith('Operator') or kind in SKIP1 or kind.endswith('Literal'):
            return self.ev(n, st, c, lambda x, s: k(s))
        raise Break('statement %s' % kind)

    def s_NullStmt(self, n, st, c, k):
        k(st)

    def s_CompoundStmt(self, n, st, c, k):
        self.seq(self.inner(n), st, c, k)

    def seq(self, ns, st, c, k):
        if not ns:
            return k(st)
        n = ns[0]
        if n['kind'] == 'DeclStmt':
            return self.decl(self.inner(n), st, c, lambda s, c2, wrapk: self.seq(ns[1:], s, c2, wrapk(k)), None)
        self.ex(n, st, c, lambda s: self.seq(ns[1:], s, c, k))

    def s_DeclStmt(self, n, st, c, k):
        self.decl(self.inner(n), st, c, lambda s, c2, wrapk: wrapk(k)(s), None)

    def decl(self, ds, st, c, rest, wrap):
        """rest(state, context, wrap) continues with the statements behind the declaration"""
        if not ds:
            w = wrap or (lambda k: k)
            return rest(st, c, w)
        d = ds[0]
        if d['kind'] != 'VarDecl':
            return self.decl(ds[1:], st, c, rest, wrap)
        if d.get('storageClass') == 'static':
            raise Break('static local variable')
        t = ctype(d)
        isref = d['type']['qualType'].rstrip().endswith('&')
        ini = [x for x in self.inner(d) if not x['kind'].endswith('Comment') and not x['kind'].endswith('Attr')]
        f = c.f

        def bindvar(x, s):
            if isref and isinstance(x, LV):
                if x.ty == 'ref' and not is_ptr(x.ct) and x.k != 'cell':
                    x = self.load(x, s)
                    x = self.short(x, d.get('name', 'v'))
                lv = x
                s2 = s
            else:
                v = self.load(x, s)
                want = mty(t, self.db)
                if want == 'str' and v.ty != 'str':
                    pass
                v = self.short(V(v.t, v.ty, t, v.x), d.get('name', 'v'))
                if not isref and not is_ptr(t) and is_vec(norm(t)):
                    s = self.private(v.t, s)
                cell = self.newcell()
                s2 = s.w(cell, v)
                lv = LV('cell', cell, v.ty, t)
            f.vars[d['id']] = lv
            if d.get('name'):
                f.names[d['name']] = lv
            c2, w2 = c, wrap
            dt = self.user_dtor(t, isref)
            if dt:
                addr = self.load(lv, s2)
                c2, w2 = self.with_dtor(dt, addr, c, wrap)
            self.decl(ds[1:], s2, c2, rest, w2)
        if not ini:
            cls = cls_of_type(t)
            if mty(t, self.db) == 'ref' and not is_ptr(t) and 'std::function' not in norm(t):
                return self.construct(norm(t), [], None, st, c, bindvar)
            v = self.default_value(t)
            if v.ty in ('int', 'bool', 'D'):
                v = self.freshv('uninit', t)     # indeterminate value
            return bindvar(v, st)
        self.ev(ini[0], st, c, bindvar)

    def private(self, a, st):
        """ghost: the container at a is a local variable or shared container of the program, not the content of an object"""
        if 'locv' not in self.fields:
            return st
        return self.hset(st, {'locv': '%s.locv.insert(%s, true)' % (st.h, a)})

    def user_dtor(self, t, isref):
        if isref or is_ptr(t) or mty(t, self.db) != 'ref':
            return None
        r = self.db.byname.get(norm(t) + '::~' + norm(t).split('::')[-1])
        if r and norm(t) not in self.spec.get('nodtor', ('object', 'LispVariant', 'LispScope')):
            return r[0]
        # local classes
        return None

    def with_dtor(self, dt, addr, c, wrap):
        def run(s, cc, k):
            self.inline(dt, addr, [], s, cc, lambda v, s2: k(s2))
        c2 = c.but(ret=lambda v, s: run(s, c, lambda s2: c.ret(v, s2)),
                   thr=lambda kd, v, s: run(s, c, lambda s2: c.thr(kd, v, s2)))
        if c.brk:
            c2 = c2.but(brk=lambda s: run(s, c, c.brk), cnt=lambda s: run(s, c, c.cnt))
        w0 = wrap or (lambda k: k)
        return c2, (lambda k: (lambda s: run(s, c, w0(k))))

    def s_ReturnStmt(self, n, st, c, k):
        i = self.inner(n)
        if not i:
            return c.ret(None, st)
        rt = getattr(c.f, 'rtype', '')

        def k1(x, s):
            if rt.rstrip().endswith('&') and isinstance(x, LV) and not (x.ty == 'ref' and not is_ptr(x.ct)):
                return c.ret(x, s)
            v = self.load(x, s)
            c.ret(self.short(v, 'ret'), s)
        self.ev(i[0], st, c, k1)

    def s_IfStmt(self, n, st, c, k):
        ins = self.inner(n)
        if n.get('hasInit') or n.get('hasVar'):
            raise Break('if with declaration')
        q, a = ins[0], ins[1]
        b = ins[2] if len(ins) > 2 else None

        def k1(v, s):
            v = self.short(v, 'c')
            t = v.t if v.ty == 'bool' else '(%s != 0)' % v.t
            if t in ('true', 'false'):
                return self.ex(a, s, c, k) if t == 'true' else (self.ex(b, s, c, k) if b else k(s))
            if self.try_merge(t, a, b, s, c, k):
                return
            self.branch(t, lambda: self.ex(a, s, c, k), (lambda: self.ex(b, s, c, k)) if b else (lambda: k(s)))
        self.cond(q, st, c, k1)

    def try_merge(self, t, a, b, st, c, k):
        """both branches are straight line code on local variables: join the values"""
        if not self.mergeable(a) or (b is not None and not self.mergeable(b)):
            return False
        outs = []
        for n in (a, b):
            if n is None:
                outs.append(st)
                continue
            res, thrown = [], []
            snap = (self.quiet, self.nfresh, self.npaths, self.rec, self.cells)
            self.quiet += 1
            rec = set()
            self.rec = self.rec + [rec]
            before, gb = self.npaths, getattr(self, 'nguards', 0)
            nm = dict(c.f.names), dict(c.f.vars)
            try:
                self.ex(n, st, c.but(thr=lambda *x: thrown.append(1), ret=lambda *x: thrown.append(1)), lambda s: res.append(s))
            finally:
                nb, ng = self.npaths - before, getattr(self, 'nguards', 0) - gb
                self.quiet, self.nfresh, self.npaths, self.rec, self.cells = snap
                c.f.names, c.f.vars = nm
            if len(res) != 1 or thrown or nb or ng or res[0].h != st.h or any(w[0] == 'heap' for w in rec):
                return False
        outs = []
        for n, g in ((a, t), (b, '!(%s)' % t)):
            if n is None:
                outs.append(st)
                continue
            res = []
            self.guards = getattr(self, 'guards', [])
            self.guards.append(g)
            nm = dict(c.f.names), dict(c.f.vars)
            self.ex(n, st, c, lambda s: res.append(s))
            c.f.names, c.f.vars = nm
            self.guards.pop()
            outs.append(res[0])
        env = dict(st.env)
        for cell in st.env:
            x, y = outs[0].env[cell], outs[1].env[cell]
            if x is y or (x.t == y.t and x.x == y.x):
                env[cell] = x
            else:
                if x.x != y.x or x.ty != y.ty:
                    raise Break('join of different values')
                env[cell] = self.short(V('(if %s { %s } else { %s })' % (t, tint(x.t), tint(y.t)), x.ty, x.ct, x.x), 'j')
        k(St(env, st.h, st.root))
        return True

    def mergeable(self, n):
        bad = ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'CXXThrowExpr', 'CXXTryStmt', 'LambdaExpr', 'GotoStmt') + LOOPS
        stack = [n]
        while stack:
            x = stack.pop()
            if x.get('kind') in bad:
                return False
            stack.extend(self.inner(x))
        return True

    def cond(self, q, st, c, k):
        self.rv(q, st, c, k)

    def s_BreakStmt(self, n, st, c, k):
        c.brk(st)

    def s_ContinueStmt(self, n, st, c, k):
        c.cnt(st)

    def s_CXXTryStmt(self, n, st, c, k):
        ins = self.inner(n)
        body, handlers = ins[0], ins[1:]

        def thr(kind, v, s):
            for h in handlers:
                hi = self.inner(h)
                var = hi[0] if hi and hi[0].get('kind') == 'VarDecl' else None
                if var is not None and not is_a(kind, norm(ctype(var))):
                    continue
                blk = hi[-1]
                s2 = s
                if var is not None:
                    cell = self.newcell()
                    s2 = s.w(cell, V(v.t, 'ref', ctype(var), v.x))
                    c.f.vars[var['id']] = LV('cell', cell, 'ref', ctype(var))
                    if var.get('name'):
                        c.f.names[var['name']] = c.f.vars[var['id']]
                return self.ex(blk, s2, c.but(exc=(kind, v)), k)
            c.thr(kind, v, s)
        self.ex(body, st, c.but(thr=thr), k)

    def s_SwitchStmt(self, n, st, c, k):
        ins = self.inner(n)
        q, body = ins[0], ins[-1]

        def k1(v, s):
            v = self.short(v, 'sw')
            # flat list of (labels, statements)
            stmts = []

            def flat(x):
                if x['kind'] == 'CaseStmt':
                    i = self.inner(x)
                    val = self._constint(i[0])
                    if val is None:
                        raise Break('case label')
                    stmts.append(('case', val))
                    flat(i[-1])
                elif x['kind'] == 'DefaultStmt':
                    stmts.append(('default', None))
                    flat(self.inner(x)[-1])
                else:
                    stmts.append(('s', x))
            for x in self.inner(body):
                flat(x)
            vals = [y for a, y in stmts if a == 'case']
            cc = c.but(brk=k)

            def run(i, s2):
                self.seq([y for a, y in stmts[i:] if a == 's'], s2, cc, k)

            def chain(j):
                if j == len(vals):
                    d = [i for i, (a, y) in enumerate(stmts) if a == 'default']
                    return run(d[0], s) if d else k(s)
                i = stmts.index(('case', vals[j]))
                self.branch('%s == %d' % (v.t, vals[j]), lambda: run(i, s), lambda: chain(j + 1))
            chain(0)
        self.rv(q, st, c, k1)

    # ------------------------------------------------------------------------------------------ loops
    def s_WhileStmt(self, n, st, c, k):
        ins = self.inner(n)
        self.loop(n, None, ins[0], None, ins[-1], st, c, k)

    def s_DoStmt(self, n, st, c, k):
        body, q = self.inner(n)
        # the first round is the loop body itself: do s while (q)  ==  s; while (q) s
        self.loop(n, None, q, None, body, st, c, k, dofirst=True)

    def s_ForStmt(self, n, st, c, k):
        raw = n.get('inner', [])
        init, _, q, inc, body = raw[0], raw[1], raw[2], raw[3], raw[4]
        go = lambda s: self.loop(n, None, q if q else None, inc if inc else None, body, s, c, k)
        if init:
            return self.ex(init, st, c, go)
        go(st)

    def s_CXXForRangeStmt(self, n, st, c, k):
        raw = n.get('inner', [])
        init, rng, beg, end, q, inc, var, body = raw
        nb, ne = self.inner(beg)[0]['name'], self.inner(end)[0]['name']
        auto = ['@%s <= @%s' % (nb, ne)]
        def go(s3):
            c.f.names['__i'] = c.f.names[nb]
            c.f.names['__n'] = c.f.names[ne]
            nr = self.inner(rng)[0]['name']
            if nr in c.f.names:
                c.f.names['__range'] = c.f.names[nr]
            self.loop(n, var, q, inc, body, s3, c, k, auto=auto)
        self.ex(rng, st, c, lambda s: self.ex(beg, s, c, lambda s2: self.ex(end, s2, c, go)))

    def loopkey(self, n, c):
        fn = c.f.fn
        order = getattr(fn, '_loops', None) if not isinstance(fn, str) else None
        ids = []
        stack = [fn.body]
        while stack:
            x = stack.pop()
            if x.get('kind') in LOOPS:
                ids.append(id(x))
            stack.extend(reversed(self.inner(x)))
        i = ids.index(id(n)) + 1 if id(n) in ids else 0
        return '%s:%d' % (fn.qname, i)

    def loop(self, n, var, q, inc, body, st, c, k, dofirst=False, auto=()):
        key = self.loopkey(n, c)
        inv = self.con.loops.get(key) or self.con.loops.get(key.split('::')[-1])
        if inv is None:
            for o in self.contracts:
                if key in o.loops and o.name == c.f.fn.qname and o is not self.con:
                    inv = o.loops[key]
        if inv is None:
            raise HardBreak('loop without invariant: %s (under %s)' % (key, self.con.key))
        if auto:
            inv = dict(inv)
            inv['inv'] = list(auto) + list(inv.get('inv', ()))
        # which cells and heap fields does the body write?
        written = set()
        while True:
            rec = set()
            snap = (self.quiet, self.nfresh, self.npaths, self.rec, self.cells)
            self.quiet += 1
            self.rec = self.rec + [rec]
            nm = dict(c.f.names), dict(c.f.vars)
            try:
                s0 = self.havoc(st, written, key)
                sink = lambda *a: None
                cc = c.but(ret=sink, thr=sink, brk=sink, cnt=sink)

                def bodyq(s):
                    self.loopbody(var, inc, body, s, cc.but(cnt=lambda s2: self.incr(inc, s2, cc, sink)), lambda s2: self.incr(inc, s2, cc, sink))
                if dofirst:
                    bodyq(st)
                if q is not None:
                    self.rv(q, s0, cc, lambda v, s: bodyq(s))
                else:
                    bodyq(s0)
            finally:
                self.quiet, self.nfresh, self.npaths, self.rec, self.cells = snap
                c.f.names, c.f.vars = nm
            new = set(w for w in rec if (w[0] == 'heap' or w[1] in st.env))
            if new <= written:
                break
            written |= new
        for r in self.rec:
            r |= written
        label = '%s: loop %s' % (self.where(c), key)
        names0 = dict(c.f.names)

        def invs(s, what, lab, top=None):
            m = self.locmap(s, c, names0, st, top)
            for e in inv.get('hint_' + lab, ()):
                self.out(self.subst2(e, m))
            for e in inv.get('inv', ()):
                self.check(self.subst2(e, m), '%s invariant %s [%s]' % (label, what, e[:70]))

        def main(st1):
            if dofirst:
                pass
            invs(st1, 'holds on entry', 'entry')
            if any(w[0] == 'heap' for w in written) and self.spec.get('node') and self.con.wf:
                self.hwf_check(st1, label + ' heap well formed on entry')
            s = self.havoc(st1, written, key)
            m = self.locmap(s, c, names0, st1)
            facts = [self.subst2(e, m) for e in inv.get('inv', ())]
            hw = any(w[0] == 'heap' for w in written)
            if hw:
                facts.append('grow(%s, %s)' % (st1.h, s.h))
                if self.spec.get('node') and self.con.wf:
                    facts.append('hwf(%s)' % s.h)
                s = St(s.env, s.h, s.h)

            def after():
                for e in inv.get('hint_top', ()):
                    self.out(self.subst2(e, m))
                dec0 = self.let('dec', self.subst2(inv['dec'], m)) if inv.get('dec') else None

                def back(s2):
                    self.incr(inc, s2, c, lambda s3: backend(s3))

                def backend(s3):
                    invs(s3, 'is preserved', 'back', s)
                    if hw:
                        self.check('grow(%s, %s)' % (s.h, s3.h), label + ' heap only grows')
                        if self.spec.get('node') and self.con.wf:
                            self.hwf_check(s3, label + ' heap well formed')
                    if dec0:
                        m3 = self.locmap(s3, c, names0, st1)
                        self.check('0 <= %s && %s < %s' % (dec0, self.subst2(inv['dec'], m3), dec0), label + ' terminates')

                cc = c.but(brk=k, cnt=back)
                if q is None:
                    return self.loopbody(var, inc, body, s, cc, back)

                def kq(v, s2):
                    v = self.short(v, 'c')
                    t = v.t if v.ty == 'bool' else '(%s != 0)' % v.t
                    nm = dict(c.f.names), dict(c.f.vars)

                    def yes():
                        self.loopbody(var, inc, body, s2, cc, back)
                        c.f.names, c.f.vars = dict(nm[0]), dict(nm[1])

                    def no():
                        for e in inv.get('hint_exit', ()):
                            self.out(self.subst2(e, self.locmap(s2, c, names0, st1)))
                        old = self.cmapping.get('$he')
                        self.cmapping['$he'] = s2.h      # the heap when the loop ended
                        k(s2)
                        if old is None:
                            del self.cmapping['$he']
                        else:
                            self.cmapping['$he'] = old
                    self.branch(t, yes, no)
                self.rv(q, s, c, kq)
            self.guard(' && '.join('(%s)' % x for x in facts) or 'true', after)
        if dofirst:
            # unrolled first round; break leaves the loop
            self.loopbody(var, inc, body, st, c.but(brk=k, cnt=main), main)
        else:
            main(st)

    def loopbody(self, var, inc, body, st, c, k):
        if var is not None:
            return self.ex(var, st, c, lambda s: self.ex(body, s, c, k))
        self.ex(body, st, c, k)

    def incr(self, inc, st, c, k):
        if inc is None:
            return k(st)
        self.ev(inc, st, c, lambda x, s: k(s))

    def havoc(self, st, written, key):
        env = dict(st.env)
        h = st.h
        hf = [w[1] for w in written if w[0] == 'heap']
        for w in sorted(w[1] for w in written if w[0] == 'cell'):
            v = st.env[w]
            n = self.freshv('lv', v.ct or {'int': 'int', 'bool': 'bool', 'str': 'string', 'D': 'double', 'ref': 'object *', 'iter': 'size_t'}[v.ty])
            if v.ty != n.ty:
                nm = self.fresh('lv', VT[v.ty])
                n = V(nm, v.ty, v.ct)
            if v.ty == 'iter':
                self.req('0 <= %s' % n.t)
            x = v.x
            if isinstance(x, tuple) and x and x[0] in ('lam', 'fn', 'lv'):
                raise Break('function variable changed in a loop')
            env[w] = V(n.t, v.ty, v.ct, x)
        if hf:
            upd = {}
            for f in hf:
                upd[f] = self.fresh('hl_' + f, self.fields[f])
            h = self.let('h', 'H { %s, ..%s }' % (', '.join('%s: %s' % x for x in sorted(upd.items())), st.h))
        return St(env, h, st.root)

    def locmap(self, s, c, names, st0, top=None):
        return (s, c, names, st0, top)

    def subst2(self, text, m):
        s, c, names, st0, top = m

        def cur(name, st):
            for src in ((names, c.f.names) if name in ('__i', '__n', '__range') else (c.f.names, names)):
                if name in src:
                    x = src[name]
                    v = self.load(x, st)
                    return paren(v.t)
            raise HardBreak('local variable %s not found (loop of %s)' % (name, self.where(c)))

        def r(x):
            key = x.group(0)
            if key == '$h':
                return s.h
            if key == '$hl':
                return st0.h
            if key == '$ht' and top is not None:     # at the beginning of this round
                return top.h
            if key.startswith('@@'):
                return cur(key[2:], st0)
            if key.startswith('@'):
                return cur(key[1:], s)
            if key in self.cmapping:
                return paren(self.cmapping[key])
            if key == '$self' and c.f.this is not None:
                t = c.f.this
                if t.x and isinstance(t.x, tuple) and t.x[0] == 'lv':
                    return paren(self.load(t.x[1], s).t)
                return t.t
            raise HardBreak('unknown name %s in an invariant of %s' % (key, self.con.key))
        return re.sub(r'@@?[A-Za-z_0-9]+|\$[A-Za-z_0-9]+', r, self.lits(text))

    # ------------------------------------------------------------------------------------------ top level
    def hwf_check(self, st, label):
        if st.h == st.root:
            return
        self.check('hwf(%s)' % st.h, label,
                   ' by { assert forall|a: int| #![trigger nk(%s, a)] 0 < a < %s.alloc implies node_ok(%s, a) by { assert(nk(%s, a)); } }' % (st.h, st.h, st.h, st.root))

    def is_static(self, fn):
        if fn.node.get('storageClass') == 'static':
            return True
        p = fn.tu.decl.get(fn.node.get('previousDecl'))
        return p is not None and p.get('storageClass') == 'static'

    def verify(self, fn, con, name):
        """-> text of the proof function"""
        self.reset(con)
        self.guards = []
        st = St({}, 'h0', 'h0')
        self.params.append(('h0', 'H'))
        self.cmapping = {'$h0': 'h0', '$hp': 'h0'}
        f = Frame(fn, fn.tu, None)
        facts = []
        self.ind = 1
        if fn.node['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl') and not self.is_static(fn) and fn.cls:
            if mty(fn.cls) == 'str':
                self.params.append(('self_', 'Seq<int>'))
                self.cmapping['$self'] = 'self_'
                cell = self.newcell()
                st = st.w(cell, V('self_', 'str', 'string'))
                lv = LV('cell', cell, 'str', 'string')
                f.this = V('1', 'ref', '', ('lv', lv))
                self.selflv = lv
            else:
                self.params.append(('self_', 'int'))
                self.cmapping['$self'] = 'self_'
                f.this = V('self_', 'ref', fn.cls, 'safe')
                if 'lambda' not in fn.cls:
                    facts.append('ok(h0, self_, %s)' % self.clsk(fn.cls))
        outs = {}
        for i, p in enumerate(fn.params):
            t = ctype(p)
            nm = 'p%d_%s' % (i + 1, re.sub(r'\W', '_', p.get('name', '')))
            ty = mty(t, self.db)
            self.params.append((nm, VT[ty]))
            self.cmapping['$%d' % (i + 1)] = nm
            r = irange(t)
            if r:
                self.req('%d <= %s <= %d' % (r[0], nm, r[1]))
            if ty == 'str':
                self.req('slen_ok(%s)' % nm)
            x = None
            if ty == 'ref':
                qt = norm(t)
                if 'std::function' in qt or qt in ('FuncX', 'Action'):
                    self.req('0 <= %s' % nm)
                elif is_ptr(t):
                    facts.append('(%s == 0 || ok(h0, %s, %s))' % (nm, nm, self.clsk(cls_of_type(t))))
                else:
                    facts.append('ok(h0, %s, %s)' % (nm, self.clsk(cls_of_type(t))))
            if i + 1 in con.outp:
                pt = norm(t)[:-1].strip()
                nv = self.freshv('po', pt)
                cell = self.newcell()
                st = st.w(cell, V(nv.t, nv.ty, pt))
                outs[i + 1] = LV('cell', cell, nv.ty, pt)
                x = ('lv', outs[i + 1])
                facts.pop()
            cell = self.newcell()
            st = st.w(cell, V(nm, ty, t, x))
            lv = LV('cell', cell, ty, t)
            f.vars[p['id']] = lv
            if p.get('name'):
                f.names[p['name']] = lv
            outs.setdefault(i + 1, lv)
        if self.spec.get('node') and con.wf:
            facts.append('hwf(h0)')
        facts += ['%s(h0)' % g for g in self.spec.get('gwf', ())]
        m = dict(self.cmapping)
        m['$h'] = 'h0'
        facts += [self.subst(r, m) for r in con.requires]
        rt = fn.type.split('(')[0].strip() if '->' not in fn.type else fn.type.split('->')[-1].strip()
        f.rtype = rt
        self.smoke_marks = []

        def finish(s, mm, what):
            self.exits += 1
            for o in tuple(con.out) + tuple(con.outp):
                mm['$o%d' % o] = self.load(outs[o], s).t
            if con.mode == 'selfstr':
                mm['$oself'] = self.load(self.selflv, s).t

        def ret(v, s):
            mm = dict(self.cmapping)
            if isinstance(v, LV):
                v = self.load(v, s)
            mm['$h1'] = s.h
            mm['$h'] = 'h0'
            if v is not None:
                mm['$r'] = v.t
            finish(s, mm, 'ret')
            self.out('//EXIT normal')
            for hnt in con.hints.get('exit', ()):
                self.out(self.subst(hnt, mm))
            for kinds, cond in con.raises:
                if cond is not None and con.exact:
                    self.check('!(%s)' % self.subst(cond, mm), '%s: an error is reported when [%s]' % (con.key, cond[:70]))
            if con.result is not None:
                if v is None:
                    raise Break('no result')
                r = self.subst(con.result, mm)
                eq = '=~=' if v.ty == 'str' else '=='
                self.check('%s %s %s' % (paren(v.t), eq, paren(r)), '%s: result is [%s]' % (con.key, con.result[:80]))
            for e in con.ensures:
                self.check(self.subst(e, mm), '%s: ensures [%s]' % (con.key, e[:80]))
            self.frame_check(con, mm, s)

        def thr(kind, v, s):
            mm = dict(self.cmapping)
            mm['$h1'] = s.h
            mm['$h'] = 'h0'
            finish(s, mm, 'thr')
            self.out('//EXIT exception %s' % kind)
            for hnt in con.hints.get('raise', ()):
                self.out(self.subst(hnt, mm))
            conds = []
            for kinds, cond in con.raises:
                if kind in kinds:
                    conds.append(self.subst(cond, mm) if cond is not None else 'true')
            if 'true' not in conds:
                self.check(' || '.join('(%s)' % x for x in conds) if conds else 'false', '%s: %s is raised only if specified' % (con.key, kind))
            for e in con.ensures_raise:
                self.check(self.subst(e, mm), '%s: ensures on exception [%s]' % (con.key, e[:80]))
            self.frame_check(con, mm, s)

        c = Ctx(f, ret, thr)

        def main():
            if self.spec.get('node') and f.this is not None and f.this.t == 'self_' and mty(fn.cls) != 'str':
                self.node(st, 'self_')
            for hnt in con.hints.get('entry', ()):
                self.out(self.subst(hnt, m))
            if fn.node['kind'] == 'CXXConstructorDecl':
                self.ctor_inits(fn, f, st, c, lambda s: self.ex(fn.body, s, c, lambda s2: ret(None, s2)))
            else:
                self.ex(fn.body, st, c, lambda s: ret(None, s))
        self.guard(' && '.join('(%s)' % x for x in facts) or 'true', main)
        ps = ', '.join('%s: %s' % p for p in self.params)
        rq = ''
        if self.reqs:
            rq = '\n    requires ' + ', '.join(self.reqs)
        head = 'proof fn %s(%s)%s\n{' % (name, ps, rq)
        return head, list(self.lines), list(self.obl)

    def frame_check(self, con, mm, s):
        if s.h == 'h0':
            return
        if con.mode in ('pure', 'selfstr'):
            self.check('ext(h0, %s)' % s.h, '%s: changes nothing' % con.key)
        elif con.mode == 'any':
            self.check('grow(h0, %s)' % s.h, '%s: frame' % con.key)
        else:
            self.check(self.framecond(con, mm, 'h0', s.h), '%s: changes only what is specified' % con.key)
        if self.spec.get('node') and con.wf and con.mode != 'pure':
            self.hwf_check(s, '%s: values stay well formed' % con.key)


def tint(t):
    return re.sub(r'^\(?(-?\d+)\)?$', lambda m: m.group(1) + 'int', t)


def paren2(t):
    return t if re.match(r'^[\w.\[\]]+$', t) or (t.startswith('(') and matched(t)) else '(' + t + ')'


def matched(t):
    d = 0
    for i, ch in enumerate(t):
        if ch == '(':
            d += 1
        if ch == ')':
            d -= 1
            if d == 0:
                return i == len(t) - 1
    return False
