"""Generates the proof obligations of a property from /repo's current source and has Verus discharge them."""
import json, os, re, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
import sym
from sym import Break, Contract
import execu

HERE = os.path.dirname(os.path.abspath(__file__))


class Result:
    def __init__(self):
        self.functions = []     # dicts
        self.obligations = 0
        self.discharged = 0
        self.failed = []        # (function, label, detail)
        self.undecided = []     # (function, reason)
        self.assumed = 0
        self.vacuous = []
        self.smoke = 0
        self.solver_s = 0.0
        self.lemmas = 0


def maplib(f, fields):
    """finite maps with ordered keys"""
    return '''
pub uninterp spec fn mkeys_%(f)s(m: Map<%(k)s, int>) -> Seq<%(k)s>;
pub uninterp spec fn mfind_%(f)s(m: Map<%(k)s, int>, k: %(k)s) -> int;
#[verifier::external_body]
pub proof fn lemma_mfind_%(f)s(m: Map<%(k)s, int>, k: %(k)s)
    ensures m.contains_key(k) ==> (0 <= mfind_%(f)s(m, k) < mkeys_%(f)s(m).len() && mkeys_%(f)s(m)[mfind_%(f)s(m, k)] == k),
        !m.contains_key(k) ==> mfind_%(f)s(m, k) == mkeys_%(f)s(m).len(), mkeys_%(f)s(m).len() >= 0 {}
#[verifier::external_body]
pub proof fn lemma_mkeys_%(f)s(m: Map<%(k)s, int>, i: int)
    requires 0 <= i < mkeys_%(f)s(m).len()
    ensures m.contains_key(mkeys_%(f)s(m)[i]) {}
// every key occurs at one place
#[verifier::external_body]
pub proof fn lemma_mkeys1_%(f)s(m: Map<%(k)s, int>)
    ensures forall|i: int, j: int| #![trigger mkeys_%(f)s(m)[i], mkeys_%(f)s(m)[j]] 0 <= i < mkeys_%(f)s(m).len() && 0 <= j < mkeys_%(f)s(m).len() && mkeys_%(f)s(m)[i] == mkeys_%(f)s(m)[j] ==> i == j,
        mkeys_%(f)s(m).len() == m.dom().len() {}
''' % {'f': f, 'k': re.match(r'Map<int, ?Map<(.*), ?int>>$', fields[f].replace(', ', ',')).group(1)}


def prelude(ex, spec):
    p = ['use vstd::prelude::*;', 'verus! {', '']
    p.append(open(HERE + '/prelude.rs').read())
    p.append('pub struct H {\n' + ''.join('    pub %s: %s,\n' % (f, t) for f, t in sorted(ex.fields.items())) + '}')
    fs = [f for f in sorted(ex.fields) if f not in ('alloc', 'cls')]
    p.append('pub open spec fn ok(h: H, p: int, k: int) -> bool { 0 < p < h.alloc && h.cls[p] == k }')
    p.append('pub open spec fn grow(h0: H, h1: H) -> bool { h0.alloc <= h1.alloc && (forall|a: int| #![trigger h1.cls[a]] 0 <= a < h0.alloc ==> h1.cls[a] == h0.cls[a]) }')
    for f in fs:
        p.append('pub open spec fn same_%s(h0: H, h1: H) -> bool { forall|a: int| #![trigger h1.%s[a]] 0 <= a < h0.alloc ==> h1.%s[a] == h0.%s[a] }' % (f, f, f, f))
    p.append('pub open spec fn ext(h0: H, h1: H) -> bool { grow(h0, h1)' + ''.join(' && same_%s(h0, h1)' % f for f in fs) + ' }')
    for n, v in sorted(ex.fnames.items()):
        p.append('pub open spec fn %s() -> int { %d }' % (n, v))
    for s, n in ex.lit.items():
        p.append('#[verifier::opaque] pub open spec fn %s() -> Seq<int> { seq![%s] }' % (n, ', '.join('%dint' % (ord(ch) - 256 if ord(ch) > 127 else ord(ch)) for ch in s)))
    for n in sorted(ex.dlits):
        p.append('pub uninterp spec fn %s() -> D;  // %s' % (n, ex.dlits[n]))
    for f in ('map_str', 'map_var'):
        if f in ex.fields:
            p.append(maplib(f, ex.fields))
    txt = spec.get('text', '')
    txt = re.sub(r'LIT\("((?:[^"\\]|\\.)*)"\)', lambda m: ex.strlit(sym.unescape('"' + m.group(1) + '"')), txt)
    txt = re.sub(r'LITNAME\("((?:[^"\\]|\\.)*)"\)', lambda m: ex.strlit(sym.unescape('"' + m.group(1) + '"'))[:-2], txt)
    txt = re.sub(r'DLIT\(([-0-9.e]+)\)', lambda m: ex.dlit(m.group(1)), txt)
    p.append(txt)
    return '\n'.join(p)


class Prover:
    def __init__(self, db, spec, work, jobs=8, only=None, smoke=False, keep=False, tag=None):
        self.tag = tag
        self.safety = tag == 'P16'
        self.db, self.spec, self.work, self.jobs, self.only, self.smoke, self.keep = db, spec, work, jobs, only, smoke, keep
        self.res = Result()
        self.assumed = set()
        self.timeout = 400

    def generate(self):
        cons = []
        for c in self.spec['contracts']:
            cons.append(c)
        self.ex = ex = execu.Exec(self.db, cons, self.spec)
        for f, t in self.spec.get('fields', {}).items():
            ex.field(f, t)
        for k in self.spec.get('classes', ()):
            ex.clsk(k)
        for n in self.spec.get('fnids', ()):
            ex.fnid(n)
        for s in re.findall(r'LIT(?:NAME)?\("((?:[^"\\]|\\.)*)"\)', self.spec.get('text', '')):
            ex.strlit(sym.unescape('"' + s + '"'))
        for s in re.findall(r'DLIT\(([-0-9.e]+)\)', self.spec.get('text', '')):
            ex.dlit(s)
        if self.only:
            todo = [c for c in cons if not c.trusted and c.key in self.only]
        elif self.tag:
            todo = [c for c in cons if not c.trusted and (self.tag in c.tags or self.safety)]
        else:
            todo = [c for c in cons if not c.trusted]
        bykey = {c.key: c for c in cons}
        # the heap fields are found while the functions are executed: repeat until they are stable
        for _ in range(8):
            before = dict(ex.fields)
            self.units = []
            ex.used_contracts = set()
            todo = list(todo)
            for c in todo:
                if not self.only:
                    for u in sorted(ex.used_contracts):
                        if bykey[u] not in todo and not bykey[u].trusted:
                            todo.append(bykey[u])
                try:
                    fns = ex.resolve(c)
                except Break as e:
                    self.units.append((c, None, None, str(e)))
                    continue
                for i, fn in enumerate(fns):
                    name = 'vc_' + re.sub(r'\W+', lambda m: '_' + ''.join({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '<': 'lt', '=': 'eq', '!': 'ne', '>': 'gt'}.get(x, '') for x in m.group(0)), c.key) + ('_%d' % i if len(fns) > 1 else '')
                    try:
                        self.units.append((c, fn, (name,) + self.run_verify(fn, c, name), None))
                    except Break as e:
                        self.units.append((c, fn, None, str(e)))
            if not self.only:
                more = [bykey[u] for u in sorted(ex.used_contracts) if bykey[u] not in todo and not bykey[u].trusted]
                if more:
                    todo += more
                    continue
            if before == ex.fields:
                break
        self.trusted_used = sorted(u for u in ex.used_contracts if bykey[u].trusted)

    def run_verify(self, fn, c, name):
        out, err = [], []

        def go():
            try:
                out.append(self.ex.verify(fn, c, name))
            except Break as e:
                err.append(e)
            except Exception as e:      # an unexpected shape of the source is an extraction break
                err.append(Break('%s: %s [%s]' % (type(e).__name__, e, traceback.format_exc().strip().split('\n')[-3].strip() if os.environ.get('VC_DEBUG') is None else traceback.format_exc())))
        t = threading.Thread(target=go)
        t.start()
        t.join()
        if err:
            raise err[0]
        return safety(out[0]) if self.safety else out[0]

    def run(self):
        t0 = time.time()
        self.generate()
        self.res.gen_s = time.time() - t0
        pre = prelude(self.ex, self.spec)
        os.makedirs(self.work, exist_ok=True)
        jobs = []
        for c, fn, u, err in self.units:
            if err is not None:
                self.res.undecided.append((c.key, 'not within reach of the generator: ' + err))
                self.res.functions.append({'function': c.key, 'status': 'undecided', 'reason': err})
                continue
            jobs.append((c, fn, u, pre))
        if self.smoke:
            jobs += [(c, fn, (u[0] + '_smoke', u[1], smoke_lines(u[2]), ['smoke']), pre) for c, fn, u, pre in jobs if c.smoke]
        ljob = [(None, None, ('lemmas', '', [], []), pre)]
        self.sem = threading.Semaphore(self.jobs)
        big = sorted(jobs, key=lambda j: -len(j[2][3]))
        with ThreadPoolExecutor(4 * self.jobs) as ex:
            for r in ex.map(self.one, ljob + big):
                pass
        self.res.wall = time.time() - t0
        return self.res

    def one(self, job):
        try:
            return self.one2(job)
        except Exception as e:
            c = job[0]
            self.res.undecided.append((c.key if c else 'lemmas', 'internal: %s' % e))

    def verus(self, path, txt):
        with open(path, 'w') as f:
            f.write(txt)
        with self.sem:
            t = time.time()
            p = subprocess.run(['verus', '--multiple-errors', '12', '--num-threads', '1', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=self.timeout)
            dt = time.time() - t
        self.res.solver_s += dt
        out = p.stderr.decode(errors='replace') + p.stdout.decode(errors='replace')
        with open(path + '.log', 'w') as f:
            f.write(out)
        return out, dt, txt.split('\n')

    def one2(self, job):
        c, fn, u, pre = job
        name, head, lines, obl = u
        if c is None:
            path = os.path.join(self.work, name + '.rs')
            out, dt, src = self.verus(path, pre + '\n} // verus!\nfn main() {}\n')
            m = re.search(r'verification results:: (\d+) verified, (\d+) errors', out)
            if m is None:
                self.res.undecided.append(('lemmas', 'verifier rejected the text: ' + first_error(out)))
                return
            self.res.lemmas = int(m.group(1))
            if int(m.group(2)):
                self.res.undecided.append(('lemmas', first_error(out)))
            return
        for l in lines:
            for m in re.finditer(r'// ?ASSUME ([^\n]*)', l):
                self.assumed.add('%s: %s' % (c.key, m.group(1).strip()))
        parts = [lines] if name.endswith('_smoke') else split(lines, c.part or PART)
        names = [name + ('_p%d' % i if len(parts) > 1 else '') for i in range(len(parts))]
        paths = [os.path.join(self.work, n + '.rs') for n in names]
        # the lemmas of the specification are proved in a file of their own
        txts = [skip_bodies(pre + '\n#[verifier::rlimit(%d)]\n#[verifier::spinoff_prover]\n' % c.rlimit + head + '\n' + '\n'.join(ls) + '\n}\n} // verus!\nfn main() {}\n') for ls in parts]
        with ThreadPoolExecutor(len(parts)) as ex:
            runs = list(ex.map(self.verus, paths, txts))
        self.result(c, fn, name, obl, runs, paths)

    def result(self, c, fn, name, obl, runs, paths):
        dt = sum(r[1] for r in runs)
        ms = [re.search(r'verification results:: (\d+) verified, (\d+) errors', r[0]) for r in runs]
        for m, r in zip(ms, runs):
            if m is None:
                # the generated text was rejected: a defect of the machinery or a function out of reach
                self.res.undecided.append((c.key, 'verifier rejected the text: ' + first_error(r[0])))
                self.res.functions.append({'function': c.key, 'status': 'undecided', 'reason': first_error(r[0])})
                return
        errors = sum(int(m.group(2)) for m in ms)
        if name.endswith('_smoke'):
            # the assertions false at the exits must fail: otherwise the preconditions or assumptions are contradictory
            if errors == 0:
                self.res.undecided.append((c.key, 'vacuous: no exit of the function is reachable under its precondition'))
                self.res.vacuous.append(c.key)
            else:
                self.res.smoke += 1
                self.drop(paths)
            return
        failed, unk = [], []
        for out, _, src in runs:
            self.errors(out, src, failed, unk)
        n = len(obl)
        self.res.obligations += n
        if self.safety:
            # a hint or an invariant that does not hold any more concerns the functional property, not this one
            soft = [x for x in failed if x[0].startswith('hint: ') or ' invariant ' in x[0]]
            if soft and len(soft) == len(failed):
                unk.append('safety not decided: ' + soft[0][0])
                failed = []
        st = 'proved'
        uns = [x[0] for x in failed if 'unsupported operation is not reached' in x[0]]
        if uns:
            st = 'undecided'
            self.res.undecided.append((c.key, 'not within reach of the generator: ' + uns[0]))
        elif failed:
            st = 'failed'
            real = [x for x in failed if not x[0].startswith('hint: ')]
            for lab, d in (real or failed):
                self.res.failed.append((c.key, lab, d))
            self.res.discharged += n - len(set(x[0] for x in failed))
        elif unk:
            st = 'undecided'
            self.res.undecided.append((c.key, 'solver gave up: ' + unk[0]))
        elif errors:
            st = 'undecided'
            self.res.undecided.append((c.key, first_error(runs[0][0])))
        else:
            self.res.discharged += n
        self.res.functions.append({'function': c.key, 'source': fn.qname, 'status': st, 'obligations': n, 'seconds': round(dt, 2)})
        if st == 'proved':
            self.drop(paths)

    def drop(self, paths):
        for path in paths:
            if not self.keep:
                os.unlink(path)
                os.unlink(path + '.log')

    def errors(self, out, src, failed, unk):
        for blk in re.split(r'\n(?=error|warning|note)', '\n' + out):
            if not blk.strip().startswith('error'):
                continue
            if 'aborting due to' in blk:
                continue
            mm = re.search(r'--> [^\n]*:(\d+):\d+', blk)
            ln = int(mm.group(1)) if mm else 0
            if 'Resource limit' in blk or 'rlimit' in blk or 'Could not finish' in blk or 'while loop' in blk:
                unk.append(blk.strip().split('\n')[0])
                continue
            lab = ''
            if ln:
                l = src[ln - 1]
                if '//OBL ' in l:
                    lab = l.split('//OBL ')[1].strip()
                else:
                    lab = 'hint: ' + l.strip()[:100]
            failed.append((lab, blk.strip()[:1500]))


PART = 120


def split(lines, k):
    """the text of a function as several texts, each with a part of its branches; every obligation is in at least one of them"""
    # blocks: (first line, last line, children, own obligations)
    root = [-1, len(lines), [], 0]
    stack = [root]
    for i, l in enumerate(lines):
        t = l.split('//OBL ')[0].split('//EXIT')[0].strip()
        if t.startswith('}') and t.endswith('{'):
            stack.pop()[1] = i
            b = [i, None, [], 0]
            stack[-1][2].append(b)
            stack.append(b)
        elif t.startswith('if ') and t.endswith('{'):
            b = [i, None, [], 0]
            stack[-1][2].append(b)
            stack.append(b)
        elif t == '}':
            stack.pop()[1] = i
        elif '//OBL ' in l:
            stack[-1][3] += 1
        if not stack:
            return [lines]
    if len(stack) != 1:
        return [lines]

    def size(b):
        return b[3] + sum(size(x) for x in b[2])

    if size(root) <= k:
        return [lines]
    units = []

    def cut(b):
        if size(b) <= k or not b[2]:
            units.append((b, size(b)))
            return
        small = [x for x in b[2] if size(x) <= k]
        for x in b[2]:
            cut(x)
        units.append((('own', b), b[3]))
    cut(root)
    groups, cur, n = [], [], 0
    for u, m in units:
        if cur and n + m > k:
            groups.append(cur)
            cur, n = [], 0
        cur.append(u)
        n += m
    groups.append(cur)
    parts, seen = [], set()
    for g in groups:
        full = [b for b in g if b[0] != 'own']
        own = [b[1] for b in g if b[0] == 'own']
        out = []

        def hit(b):
            return any(x is b for x in full + own) or any(hit(x) for x in b[2])

        def put(b):
            if any(x is b for x in full):
                for i in range(b[0] + 1, b[1]):
                    out.append(lines[i])
                    seen.add(i)
                return
            keep = any(x is b for x in own)
            i = b[0] + 1
            for x in b[2]:
                while i <= x[0]:
                    if i != x[0] or not lines[i].strip().startswith('}'):
                        line(i, keep)
                    i += 1
                if lines[x[0]].strip().startswith('}'):
                    out.append(lines[x[0]])
                if hit(x):
                    put(x)
                i = x[1]
                if lines[i].strip() == '}':
                    out.append(lines[i])
                    i += 1
            while i < b[1]:
                line(i, keep)
                i += 1

        def line(i, keep):
            l = lines[i]
            if '//OBL ' in l:
                if keep:
                    seen.add(i)
                else:
                    l = assume(l)
            out.append(l)
        put(root)
        parts.append(out)
    if any('//OBL ' in l and i not in seen for i, l in enumerate(lines)):
        return [lines]
    return parts


def assume(l):
    l = re.sub(r'^(\s*)assert\(', r'\1assume(', l.split('//OBL ')[0])
    return l[:l.index(' by {')] + ';' if ' by {' in l else l


SAFE = re.compile(r'invariant|: ensures \[(\(?\$h1?\.|)(vwf|argok|owf|awf|ok|swf|gscope|isvec)\(')
FUNC = re.compile(r': (ensures \[|ensures on exception|result is \[|an error is reported when|changes nothing|changes only what|frame$|LispException(Base)? is raised only if specified)')


def functional(label):
    return bool(FUNC.search(label)) and not SAFE.search(label)


def safety(u):
    """the obligations of a function that concern memory safety and errors other than language errors (P16)"""
    head, lines, obl = u
    return head, [l for l in lines if '//OBL ' not in l or not functional(l.split('//OBL ')[1])], [o for o in obl if not functional(o)]


def smoke_lines(lines):
    out = []
    for l in lines:
        if '//OBL ' in l:
            l = assume(l)
        out.append(l)
        if l.strip().startswith('//EXIT normal') or l.strip().startswith('//EXIT exception'):
            out.append('assert(false);')
    return out


def first_error(out):
    for l in out.split('\n'):
        if l.startswith('error'):
            i = out.index(l)
            return ' '.join(out[i:i + 300].split())
    return out[-300:]


def skip_bodies(txt):
    """lemmas named lemma_* are proved once, in the file of the lemmas; elsewhere their statement is used"""
    return re.sub(r'\n((?:#\[verifier[^\n]*\]\n)*)(pub (?:broadcast )?proof fn lemma_)', r'\n#[verifier::external_body]\n\2', txt)


def main():
    import argparse, importlib, pickle
    ap = argparse.ArgumentParser()
    ap.add_argument('spec', nargs='?', default='allspec')
    ap.add_argument('--only')
    ap.add_argument('--db')
    ap.add_argument('--work', default='/tmp/w/vc')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--tag')
    ap.add_argument('--smoke', action='store_true')
    ap.add_argument('--json')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    sys.path.insert(0, HERE + '/specs')
    mod = importlib.import_module(a.spec)
    spec = mod.select(a.tag, a.only.split(';') if a.only else None)
    if a.db:
        sys.path.insert(0, '/tmp/w')
        import show
        db = show.getdb(spec['tus'])
    else:
        import ast as A
        db = A.DB(spec['tus'])
    p = Prover(db, spec, a.work, only=a.only.split(';') if a.only else None, keep=a.keep, tag=a.tag, smoke=a.smoke, jobs=a.jobs)
    r = p.run()
    if a.json:
        ax = re.findall(r'#\[verifier::external_body\]\s*pub proof fn (\w+)', prelude(p.ex, spec))
        with open(a.json, 'w') as f:
            json.dump({'functions': r.functions, 'obligations': r.obligations, 'discharged': r.discharged, 'failed': r.failed, 'undecided': r.undecided, 'lemmas': r.lemmas, 'smoke': r.smoke,
                       'vacuous': r.vacuous, 'solver_s': round(r.solver_s, 1), 'wall': round(r.wall, 1), 'gen_s': round(r.gen_s, 1), 'inlined': sorted(map(str, p.ex.inlined)), 'axioms': sorted(set(ax)),
                       'trusted': [{'function': c.key, 'note': c.note} for c in spec['contracts'] if c.trusted and c.key in p.trusted_used], 'assumed': sorted(p.assumed)}, f)
        return
    for f in r.functions:
        print(f)
    for x in r.failed:
        print('FAILED', x[0], '::', x[1])
    for x in r.undecided:
        print('UNDECIDED', *x)
    print('obligations %d discharged %d lemmas %d solver %.1fs gen %.1fs wall %.1fs inlined %d' % (r.obligations, r.discharged, r.lemmas, r.solver_s, r.gen_s, r.wall, len(p.ex.inlined)))


if __name__ == '__main__':
    main()
