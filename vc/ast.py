"""Reads the clang AST (JSON) of the translation units of /repo and builds a program database.

Nothing is dropped here except the declarations of the standard library: every function of
the code under test (bodies included) is taken from the compiler's own view of the current tree.
"""
import json, mmap, os, re, subprocess, sys, tempfile, hashlib
from concurrent.futures import ProcessPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
INTERP = REPO + '/CppLisp/CppLispInterpreter'
DBG = REPO + '/CppLisp/CppLispDebugger'
FILES = {
    'Environment': INTERP + '/Environment.cpp', 'Exception': INTERP + '/Exception.cpp',
    'Interpreter': INTERP + '/Interpreter.cpp', 'Lisp': INTERP + '/Lisp.cpp',
    'Parser': INTERP + '/Parser.cpp', 'Scope': INTERP + '/Scope.cpp', 'Token': INTERP + '/Token.cpp',
    'Tokenizer': INTERP + '/Tokenizer.cpp', 'Utils': INTERP + '/Utils.cpp', 'Variant': INTERP + '/Variant.cpp',
    'csobject': INTERP + '/csobject.cpp', 'csstring': INTERP + '/csstring.cpp', 'cstypes': INTERP + '/cstypes.cpp',
    'Debugger': DBG + '/Debugger.cpp',
}
GLOBAL_TU = {'Environment'}     # translation units with functions outside of the namespace
KEEP = (b'FunctionDecl', b'CXXMethodDecl', b'CXXConstructorDecl', b'CXXDestructorDecl', b'CXXConversionDecl', b'VarDecl',
        b'FunctionTemplateDecl', b'CXXRecordDecl')


def _cmd(path):
    return ['clang++', '-std=c++11', '-fsyntax-only', '-w', '-I' + INTERP, '-I' + DBG, '-Xclang', '-ast-dump=json']


def load_tu(name, path=None):
    """-> list of top level declaration nodes"""
    path = path or FILES[name]
    if name not in GLOBAL_TU:
        p = subprocess.run(_cmd(path) + ['-Xclang', '-ast-dump-filter=CppLisp', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise RuntimeError('clang failed on %s: %s' % (path, p.stderr.decode()[-2000:]))
        txt = p.stdout.decode()
        dec = json.JSONDecoder()
        out, i, n = [], 0, len(txt)
        while True:
            while i < n and txt[i] in ' \r\n\t':
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(txt, i)
            out.append(o)
        return out
    d = tempfile.mkdtemp(prefix='vcast')
    fn = d + '/ast.json'
    try:
        with open(fn, 'wb') as f:
            p = subprocess.run(_cmd(path) + [path], stdout=f, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise RuntimeError('clang failed on %s: %s' % (path, p.stderr.decode()[-2000:]))
        src = open(path, 'rb').read()
        out = []
        with open(fn, 'rb') as f, mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ) as m:
            key = b'"inner": [\n'
            pos = m.find(key) + len(key)
            while True:
                e = m.find(b'\n    }', pos)
                if e < 0:
                    break
                head = m[pos:min(pos + 3000, e + 6)]
                k = re.search(rb'"kind": "(\w+)"', head)
                nm = re.search(rb'\n      "name": "([^"]*)"', head)
                kind = k.group(1)
                name_ = nm.group(1) if nm else b''
                # the specialisation of std::less for the keys of dictionaries is code of the project
                take = (kind == b'NamespaceDecl' and (name_ == b'CppLisp' or name_ == b'std' and e - pos < 200000 and m.find(b'KeyLess', pos, e) >= 0)) or \
                       (kind in KEEP and (kind != b'FunctionDecl' or re.search(rb'\b' + re.escape(name_) + rb'\b', src)))
                if take:
                    out.append(json.loads(m[pos:e + 6]))
                pos = e + 6
                if m[pos:pos + 1] == b',':
                    pos += 2
                else:
                    break
        return out
    finally:
        if os.path.exists(fn):
            os.unlink(fn)
        os.rmdir(d)


class TU:
    def __init__(self, name, roots):
        self.name = name
        self.decl = {}        # id -> node
        self.owner = {}       # decl id -> qualified owner name
        self.ctx = {}         # id -> context node (record / namespace)
        self.roots = roots
        for r in roots:
            self._walk(r, [])

    def _walk(self, n, path):
        # path: names of the enclosing namespaces and records
        st = [(n, path)]
        while st:
            n, path = st.pop()
            if not isinstance(n, dict):
                continue
            i = n.get('id')
            k = n.get('kind', '')
            if i and k.endswith('Decl') and len(n) > 3:
                old = self.decl.get(i)
                if old is None or len(old.get('inner', ())) < len(n.get('inner', ())):
                    self.decl[i] = n
                    self.owner[i] = path
            sub = path
            if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl') and i:
                nm = n.get('name', '')
                if k == 'ClassTemplateSpecializationDecl':
                    args = []
                    for c in n.get('inner', ()):
                        if c.get('kind') == 'TemplateArgument':
                            if 'type' in c:
                                args.append(c['type'].get('qualType', '?'))
                            else:
                                args.append(str(c.get('value', '?')))
                    nm += '<' + ','.join(args) + '>'
                sub = path + [nm]
            for c in n.get('inner', ()):
                st.append((c, sub))


FUNC = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


def body_of(n):
    for c in n.get('inner', ()):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None


def params_of(n):
    return [c for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl']


class Fn:
    __slots__ = ('tu', 'node', 'cls', 'name', 'qname', 'params', 'body', 'mangled', 'type')

    def __init__(self, tu, node, cls):
        self.tu, self.node, self.cls = tu, node, cls
        self.name = node.get('name', '')
        self.qname = (cls + '::' if cls else '') + self.name
        self.params = params_of(node)
        self.body = body_of(node)
        self.mangled = node.get('mangledName')
        self.type = node['type']['qualType']

    def __repr__(self):
        return '<Fn %s %s>' % (self.qname, self.type)


class DB:
    def __init__(self, names):
        self.tus = {}
        with ProcessPoolExecutor(max_workers=min(8, len(names))) as ex:
            for nm, roots in zip(names, ex.map(load_tu, names)):
                self.tus[nm] = TU(nm, roots)
        self.fn = {}       # mangled -> Fn with body
        self.byname = {}   # qualified name -> [Fn]
        self.vars = {}     # qualified name of a static / global variable -> (TU, node with init)
        self.records = {}  # class name -> (TU, node)
        for t in self.tus.values():
            for i, n in t.decl.items():
                k = n['kind']
                if k in FUNC:
                    cls = self.cls_of(t, n)
                    if body_of(n) is not None and not n.get('isImplicit'):
                        f = Fn(t, n, cls)
                        if f.mangled and f.mangled not in self.fn:
                            self.fn[f.mangled] = f
                            self.byname.setdefault(f.qname, []).append(f)
                elif k == 'VarDecl' and 'init' in n:
                    cls = self.cls_of(t, n)
                    q = (cls + '::' if cls else '') + n.get('name', '')
                    self.vars.setdefault(q, (t, n))
                elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.get('completeDefinition'):
                    q = '::'.join([x for x in t.owner[i] if x != 'CppLisp'] + [n.get('name', '')])
                    if k == 'ClassTemplateSpecializationDecl':
                        args = [c['type'].get('qualType', '?') if 'type' in c else '?' for c in n['inner'] if c.get('kind') == 'TemplateArgument']
                        q = n['name'] + '<' + ','.join(args) + '>'
                    self.records.setdefault(q, (t, n))

    def cls_of(self, t, n):
        """qualified class name (without CppLisp) of a member"""
        i = n['id']
        if 'previousDecl' in n and n['previousDecl'] in t.owner:
            p = t.owner[n['previousDecl']]
        elif 'parentDeclContextId' in n and n['parentDeclContextId'] in t.decl:
            d = t.decl[n['parentDeclContextId']]
            p = t.owner[d['id']] + [d.get('name', '')]
        else:
            p = t.owner.get(i, [])
        return '::'.join(x for x in p if x != 'CppLisp')

    def lambda_fn(self, fn, i):
        """the i-th lambda of a function as a function: parameters, then the captured variables"""
        found, decl = [], {}

        def walk(x):
            if x.get('kind') in ('VarDecl', 'ParmVarDecl'):
                decl[x['id']] = x
            if x.get('kind') == 'LambdaExpr':
                found.append(x)
            for y in x.get('inner', ()):
                walk(y)
        walk(fn.node)
        if i > len(found):
            return None
        n = found[i - 1]
        ins = [x for x in n['inner'] if x.get('kind')]
        op = [x for x in ins[0]['inner'] if x.get('name') == 'operator()' and x.get('kind') == 'CXXMethodDecl'][0]
        f = Fn(fn.tu, op, '')
        f.qname = '%s::lambda:%d' % (fn.qname, i)
        f.body = ins[-1]
        caps = []
        for ini in ins[1:-1]:
            y = ini
            while y['kind'] not in ('DeclRefExpr', 'CXXThisExpr'):
                y = y['inner'][0]
            if y['kind'] == 'CXXThisExpr':
                return None
            caps.append(decl[y['referencedDecl']['id']])
        f.params = f.params + caps
        return f

    def lambda_ord(self, fn, n):
        i = 0
        st = [fn.node]
        while st:
            x = st.pop()
            if x.get('kind') == 'LambdaExpr':
                i += 1
                if x is n:
                    return i
            st.extend(reversed(x.get('inner', ())))
        return 0

    def find(self, qname, nparams=None, types=None):
        r = self.byname.get(qname, [])
        if nparams is not None:
            r = [f for f in r if len(f.params) == nparams]
        if types is not None:
            r = [f for f in r if all(t in p['type']['qualType'] for t, p in zip(types, f.params))]
        return r


if __name__ == '__main__':
    import time
    t = time.time()
    db = DB(sys.argv[1:] or ['Environment', 'Variant'])
    print(time.time() - t)
    for q in sorted(db.byname):
        print(q, [f.type for f in db.byname[q]])
