#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on /repo's current working tree (see DESIGN.md).

1. the contracts tagged with the property, and all contracts they use, are proved by Verus from obligations generated from /repo's source
2. the bounded harness of the property runs against /repo's source (ASan/UBSan) - it stands in for functions out of reach of the
   verifier and searches a concrete failing input when an obligation fails
Exit 0: nothing found; exit 1 with a VIOLATION line: broken."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
S = '/repo/CppLisp/CppLispInterpreter'
DBG = '/repo/CppLisp/CppLispDebugger'
SAN = ['-g', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-w', '-I' + S, '-I' + DBG]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
QUICK_S, THOROUGH_S, SEARCH_S = 30, 240, 60
import levels


def build(work, prop, out):
    b = work + '/b'
    os.makedirs(b)
    jobs = []
    for d in (S, DBG):
        for f in sorted(os.listdir(d)):
            n = f[:-4]
            if f.endswith('.cpp') and n not in ('dllmain', 'fuel', 'Fuel', 'stdafx') and not (d == DBG and n in ('dllmain', 'stdafx')):
                jobs.append((os.path.getsize(d + '/' + f), d + '/' + f, b + '/' + n + '.o'))
    jobs.sort(reverse=True)
    procs, res = [], []

    def one(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            res.append(' '.join(cmd[-3:]) + '\n' + p.stdout.decode(errors='replace')[:1500])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(one, ['g++', '-std=c++11'] + SAN + ['-c', src, '-o', o]) for _, src, o in jobs]
        fs.insert(1, ex.submit(one, ['g++', '-std=c++17'] + SAN + ['-I' + V + '/harness', '-c', '%s/harness/%s.cpp' % (V, prop.lower()), '-o', b + '/harness.main.o']))
        [f.result() for f in fs]
    if not res:
        one(['g++'] + SAN + ['-o', b + '/h'] + [b + '/harness.main.o'] + [o for _, _, o in jobs])
    out['error'] = '\n'.join(res)
    out['bin'] = b + '/h'
    out['build_s'] = round(time.time() - T0, 1)


def prove(work, prop, out):
    j = work + '/proof.json'
    cmd = [sys.executable, V + '/vc/prover.py', '--tag', prop, '--json', j, '--work', work + '/vc'] + (['--smoke'] if TIER == 'thorough' else [])
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=560)
        if os.path.exists(j):
            out.update(json.load(open(j)))
        else:
            out['broken'] = p.stdout.decode(errors='replace')[-1500:]
    except subprocess.TimeoutExpired:
        out['broken'] = 'time limit'


def run_harness(h, work, prop, secs, tag):
    d = work + '/run' + tag
    os.makedirs(d)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', LANG='C.UTF-8', LC_ALL='C.UTF-8', HOME=d, TMPDIR=d)
    try:
        p = subprocess.run([h, str(SEED), str(secs), '8'] + (['thorough'] if TIER == 'thorough' else []), cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=secs + 260)
    except subprocess.TimeoutExpired:
        return {'rc': 2, 'out': 'no answer'}
    o = p.stdout.decode(errors='replace')
    m = re.search(r'cases=(\d+) values=(\d+)', o)
    r = {'rc': p.returncode, 'out': o, 'cases': int(m.group(1)) if m else 0, 'values': int(m.group(2)) if m else 0, 'samples': re.findall(r'SAMPLE (.*)', o)}
    m = re.search(r'FAIL worker=\d+ reason: (.*?)\n<<<INPUT\n(.*?)\nINPUT>>>', o, re.S)
    if m:
        r['reason'], r['input'] = m.group(1), m.group(2)
    return r


def main():
    prop = sys.argv[1]
    info = levels.PROPS[prop]
    work = tempfile.mkdtemp(prefix='fuelv-')
    rc = 0
    try:
        bo, po, h = {}, {}, {}
        ts = [threading.Thread(target=build, args=(work, prop, bo))]
        if info['proof']:
            ts.append(threading.Thread(target=prove, args=(work, prop, po)))
        [t.start() for t in ts]
        [t.join() for t in ts]
        failed = po.get('failed', [])
        secs = THOROUGH_S if TIER == 'thorough' else QUICK_S
        if bo.get('error'):
            h = {'rc': 2, 'out': 'harness not built: ' + bo['error'], 'cases': 0, 'values': 0}
        else:
            h = run_harness(bo['bin'], work, prop, max(secs, SEARCH_S) if failed else secs, '')
        known = []
        kf = V + '/KNOWN-FINDINGS'
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r'finding: property=(\S+) input=(\S+) (.*)', l)
                if m and m.group(1) == prop:
                    known.append((m.group(2), m.group(3).strip()))
        for k, w in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, w))
        viol = 0
        os.makedirs(V + '/replay', exist_ok=True)
        if h['rc'] == 1 and 'input' in h:
            viol += 1
            rp = '%s/replay/%s-%s.txt' % (V, prop, hashlib.sha256(h['input'].encode()).hexdigest()[:12])
            with open(rp, 'w') as f:
                f.write('property %s violated on the real code\nreason: %s\n----- input\n%s\n----- failed obligations\n%s\n----- output of the harness (seed %d)\n%s\n' %
                        (prop, h['reason'], h['input'], '\n'.join('%s: %s' % (a, b) for a, b, _ in failed) or 'none', SEED, h['out'][:20000]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            print('  ' + h['reason'][:300])
            print('  input: ' + h['input'][:300])
            rc = 1
        elif failed:
            viol += len(failed)
            rp = '%s/replay/%s-obligations.txt' % (V, prop)
            with open(rp, 'w') as f:
                f.write('property %s: obligations that do not hold on the current source; the bounded search found no failing input (%d cases)\n' % (prop, h.get('cases', 0)))
                for a, b, d in failed:
                    f.write('\n==== function %s\n==== obligation %s\n%s\n' % (a, b, d))
            print('  failed obligation: %s: %s' % (failed[0][0], failed[0][1]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
            rc = 1
        evidence(prop, info, bo, po, h, viol)
        for f in po.get('undecided', []):
            print('note: not proved in this run, bounded only: %s (%s)' % (f[0], f[1][:200]))
        if po.get('broken'):
            print('note: the prover gave no answer, bounded only: ' + po['broken'][-300:])
        if h['rc'] not in (0, 1):
            print('note: the bounded harness gave no answer: ' + h['out'][-600:])
        print('%s: obligations %s discharged %s failed %d undecided %d; harness cases %d; %.0f s' % (prop, po.get('obligations', 0), po.get('discharged', 0), len(failed), len(po.get('undecided', [])), h.get('cases', 0), time.time() - T0))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def evidence(prop, info, bo, po, h, viol):
    cov = {'evaluations': h.get('cases', 0), 'distinct_nontrivial': h.get('values', 0),
           'rule': 'bounded stand-in: ' + info['rule'] + '; non-trivial: the evaluation gave a value (not an error)',
           'samples': (h.get('samples') or [])[:12] or ['(none recorded)'], 'harness': 'harness/%s.cpp' % prop.lower(), 'harness_rc': h['rc'], 'build_s': bo.get('build_s')}
    ass = list(levels.COMMON_BOUNDED)
    if info['proof']:
        fn = po.get('functions', [])
        cov.update({'obligations': po.get('obligations', 0), 'discharged': po.get('discharged', 0), 'checker_cmd': 'python3 vc/prover.py --tag %s (Verus 0.2026.09.13, Z3 back end)' % prop,
                    'trusted_base': levels.TRUSTED + ['axiom ' + a for a in po.get('axioms', [])] + ['trusted contract %s: %s' % (t['function'], t['note']) for t in po.get('trusted', [])],
                    'functions_under_contract': fn, 'functions_proved': sum(1 for f in fn if f['status'] == 'proved'), 'lemmas_proved': po.get('lemmas', 0), 'solver_s': po.get('solver_s'),
                    'generation_s': po.get('gen_s'), 'inlined_functions': po.get('inlined', []), 'vacuity_checks': po.get('smoke', 0), 'vacuous': po.get('vacuous', []),
                    'undecided': po.get('undecided', []) + ([['prover', po['broken'][-300:]]] if po.get('broken') else []), 'bounded_only': info.get('bounded', [])})
        ass = levels.COMMON_PROOF + po.get('assumed', []) + ass
    ev = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': info['level'], 'coverage': cov, 'assumptions': ass, 'wall_s': round(time.time() - T0, 1), 'violations': viol}
    os.makedirs(V + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (V, prop), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
