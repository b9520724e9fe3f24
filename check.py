#!/usr/bin/env python3
"""Decide one property: ./check.py C23   (VERIF_TIER=quick|thorough, VERIF_SEED=n)

1. govc generates verification conditions from the current source of /repo against the contracts
   in /verif/contracts and discharges them (proof; no bound).
2. When an obligation is not discharged, the property's contract-driven replay harness runs the
   real code on generated inputs against the contract's specification and looks for a failing input.
   The same harness also runs for a few seconds after a successful proof (bounded; never counted as
   proof): it tests the trusted contracts and the parts DESIGN.md names as outside the proof.
"""
import json, os, re, subprocess, sys, time, tempfile, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
from props import PROPS

ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GONOSUMDB='*', GONOSUMCHECK='1', GOFLAGS_VERIF='1')
RENV = dict(ENV, GOFLAGS='-mod=readonly')


def setup():
    r = subprocess.run(['go', 'build', '-o', 'bin/govc', '.'], cwd=V + '/govc', env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout)
    return r.returncode


def prove(pid, thorough, work):
    out = os.path.join(work, pid + '.govc.json')
    if os.path.exists(out):
        os.remove(out)
    cmd = [V + '/govc/bin/govc', '-repo', REPO, '-contracts', V + '/contracts', '-prop', pid, '-json', out]
    if thorough:
        cmd += ['-T', '60']
    t = time.time()
    try:
        r = subprocess.run(cmd, env=RENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=2400 if thorough else 500)
        txt, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        txt, rc = 'verifier timeout', 3
    rep = None
    if os.path.exists(out):
        rep = json.load(open(out))
    if rep is None:
        rep = {'functions': [], 'obligations': 0, 'discharged': 0, 'by_solver': {}, 'solver_seconds': 0, 'trusted': [], 'inlined': [], 'mathint': [], 'notes': [],
               'failed': [{'name': 'verification condition generation', 'kind': 'generate', 'pos': '', 'src': '', 'status': 'undecided', 'output': txt[-3000:]}]}
    elif rc != 0 and not rep.get('failed'):
        rep['failed'] = [{'name': 'govc', 'kind': 'generate', 'pos': '', 'src': '', 'status': 'undecided', 'output': 'exit %d\n%s' % (rc, txt[-3000:])}]
    for k in ('failed', 'trusted', 'functions', 'inlined', 'mathint', 'notes'):
        rep[k] = rep.get(k) or []
    rep['cmd'] = ' '.join(cmd)
    return rep


def replay(pid, budget, seed, work):
    """returns (stats dict or None, failure dict or None, error text)"""
    p = PROPS[pid].get('replay')
    if not p:
        return None, None, 'no replay harness'
    pkg, files = p
    d = tempfile.mkdtemp(prefix='verif_' + pid + '_')
    try:
        ov = {}
        pname = os.path.basename(pkg) if pkg != '.' else 'llx'
        pname = PROPS[pid].get('pkgname', pname)
        tgt = os.path.join(REPO, pkg)
        com = open(V + '/replay/common.go.txt').read().replace('PACKAGE', pname + '_test')
        cf = os.path.join(d, 'vcommon_test.go')
        open(cf, 'w').write(com)
        ov[os.path.join(tgt, 'zz_vcommon_verif_test.go')] = cf
        for f in files:
            g = os.path.join(d, f.replace('.go.txt', '_test.go'))
            open(g, 'w').write(open(V + '/replay/' + f).read().replace('package PACKAGE', 'package ' + pname + '_test'))
            ov[os.path.join(tgt, 'zz_' + f.replace('.go.txt', '_verif_test.go'))] = g
        # the repository's own test files are not needed
        for f in os.listdir(tgt):
            if f.endswith('_test.go'):
                ov[os.path.join(tgt, f)] = ''
        of = os.path.join(d, 'overlay.json')
        json.dump({'Replace': ov}, open(of, 'w'))
        st, fo = os.path.join(d, 'stats.json'), os.path.join(d, 'fail.json')
        env = dict(RENV, VERIF_SEED=str(seed), VERIF_BUDGET=str(budget), VERIF_STATS=st, VERIF_FAIL=fo, VERIF_SCRATCH=d, VERIF_DIR=V)
        cmd = ['go', 'test', '-overlay', of, '-vet=off', '-count=1', '-timeout', '%ds' % (budget + 200), '-run', '^TestVerif%s$' % pid, './' + pkg]
        try:
            r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget + 260)
            txt = r.stdout
        except subprocess.TimeoutExpired:
            txt = 'replay harness timeout'
        stats = json.load(open(st)) if os.path.exists(st) else None
        fail = json.load(open(fo)) if os.path.exists(fo) else None
        if fail is None and stats is None:
            m = re.search(r'^(fatal error: .*|runtime: goroutine stack exceeds.*|panic: .*|signal: .*)$', txt, re.M)
            if m:  # the process died inside the code under test
                fail = {'property': pid, 'seed': seed, 'mismatch': m.group(1), 'input': 'the process died; rerun with the seed', 'head': txt[:3000]}
        if fail is not None:
            fail['output'] = txt[-4000:]
        return stats, fail, None if stats or fail else txt[-4000:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known(pid):
    out = []
    f = V + '/known-findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'KNOWN-FINDING: property=(\S+) ', l)
            if m and m.group(1) == pid:
                out.append(l.strip())
    return out


def main():
    if len(sys.argv) > 1 and sys.argv[1] == 'setup':
        sys.exit(setup())
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or '1')
    thorough = tier == 'thorough'
    t0 = time.time()
    P = PROPS[pid]
    work = os.path.join(V, 'work')
    os.makedirs(work, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    if not os.path.exists(V + '/govc/bin/govc'):
        if setup() != 0:
            print('cannot build govc')
            sys.exit(2)
    rep = prove(pid, thorough, work)
    ok = not rep['failed'] and rep['obligations'] > 0
    budget = 300 if thorough else (P.get('budget', 6) if ok else 60)
    stats, fail, err = replay(pid, budget, seed, work)
    nviol = 0 if ok and not fail else 1
    cov = {
        'obligations': rep['obligations'], 'discharged': rep['discharged'],
        'checker_cmd': rep['cmd'],
        'trusted_base': ['govc (verification condition generator, /verif/govc)', 'golang.org/x/tools/go/ssa', 'z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2'] + rep['trusted'],
        'functions_under_contract': ['%s %d/%d%s' % (f['name'], f['discharged'], f['obligations'], ' ERROR ' + f['err'] if f.get('err') else '') for f in rep['functions']],
        'functions_inlined': rep.get('inlined') or [],
        'by_back_end': rep['by_solver'], 'solver_seconds': round(rep['solver_seconds'], 2),
        'vacuity_checks': rep.get('vacuity_checks', 0),
        'notes': rep['notes'],
        'undischarged': [f['name'] for f in rep['failed']],
        'bounded_replay': {'role': 'bounded run of the real code against the specification; not counted as proof', 'budget_s': budget, 'stats': stats, 'error': err},
    }
    lvl = P.get('level', 'proof')
    if lvl == 'other':
        cov['explanation'] = P['explanation']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': lvl, 'coverage': cov,
          'assumptions': rep['trusted'] + P.get('assumptions', []) + ['machine integers treated as mathematical in: ' + ', '.join(rep['mathint'])] * bool(rep.get('mathint')),
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for l in known(pid):
        print(l)
    if nviol == 0:
        print('property %s: %d obligations, %d discharged, %.1f s' % (pid, rep['obligations'], rep['discharged'], time.time() - t0))
        sys.exit(0)
    rp = os.path.join(work, 'replay_%s.json' % pid)
    json.dump({'property': pid, 'failed_obligations': rep['failed'], 'failing_input': fail, 'replay_error': err,
               'rerun': 'VERIF_SEED=%d %s/check.py %s' % (seed, V, pid)}, open(rp, 'w'), indent=1)
    for f in rep['failed'][:10]:
        print('undischarged: %s [%s] %s' % (f['name'], f['status'], f['src']))
    if fail:
        print('failing input:', json.dumps(fail)[:1500])
    elif err:
        print('replay:', err[-1500:])
    print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if fail else ' no-failing-input-found'))
    sys.exit(1)


main()
