#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

1. gocv generates the obligations of every contract of the property from /repo's current source and
   has them discharged by SMT solvers (the deciding step).
2. The bounded runs of harness/ exercise the same property on the real code: they look for a concrete
   failing input when an obligation fails, and stand in (labelled bounded) for what no contract reaches.
"""
import json, os, re, subprocess, sys, tempfile, time, shutil, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
MOD = 'github.com/wujiu2020/strip'
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', CGO_ENABLED=os.environ.get('CGO_ENABLED', '1'))


def build():
    exe = os.path.join(VERIF, 'bin', 'gocv')
    src = glob.glob(os.path.join(VERIF, 'gocv', '*.go'))
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in src):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    r = subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=os.path.join(VERIF, 'gocv'), env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        print(r.stderr)
        sys.exit(2)
    os.replace(tmp, exe)
    return exe


def verify(exe, prop, cfg, tier, tmp):
    out = os.path.join(tmp, 'report.json')
    to = '8s' if tier == 'quick' else '30s'
    args = [exe, '-repo', REPO, '-contracts', os.path.join(VERIF, 'contracts'), '-prop', prop, '-out', out]
    if cfg.get('specs'):
        args += ['-specs', ','.join(cfg['specs'])]
    try:
        r = subprocess.run(args + ['-timeout', to], env=ENV, capture_output=True, text=True, timeout=330)
        if r.returncode == 1 and tier == 'quick':
            # an obligation no solver settled in the short time gets a longer one before it is reported
            nf = len(json.load(open(out))['failed'])
            if nf <= 12:
                r = subprocess.run(args + ['-timeout', '24s'], env=ENV, capture_output=True, text=True, timeout=330)
    except subprocess.TimeoutExpired:
        if not os.path.exists(out):
            return None, 'the verifier did not finish in time'
        rep = json.load(open(out))
        return (rep if rep['failed'] else None), 'the verifier did not finish in time'
    if not os.path.exists(out):
        return None, r.stdout + r.stderr
    return json.load(open(out)), r.stdout + r.stderr


def overlay(rels, tmp, prop):
    rep = {os.path.join(REPO, 'zzverif/vh/vh.go'): os.path.join(VERIF, 'harness/_vh/vh.go')}
    for rel in rels:
        d = os.path.join(REPO, rel)
        for f in glob.glob(os.path.join(d, '*_test.go')):
            rep[f] = ''
        for f in glob.glob(os.path.join(VERIF, 'harness', rel, '*.go')):
            m = re.match(r'p\d\d', os.path.basename(f))
            if m and m.group(0).upper() != prop:
                continue
            rep[os.path.join(d, 'zz_verif_' + os.path.basename(f).replace('.go', '_test.go'))] = f
    p = os.path.join(tmp, 'overlay.json')
    json.dump({'Replace': rep}, open(p, 'w'))
    return p


def harness(prop, cfg, tier, tmp, budget):
    """returns (cases, failures text, problem)"""
    cases, fails, problem = 0, '', ''
    seed = os.environ.get('VERIF_SEED', '1')
    rels = cfg['packages']
    ov = overlay(rels, tmp, prop)
    replay = os.path.join(tmp, 'failing.txt')
    for rel in rels:
        exe = os.path.join(tmp, 'h_' + (rel or 'root').replace('/', '_') + '.test')
        work = os.path.join(tmp, 'w_' + (rel or 'root').replace('/', '_'))
        os.makedirs(work, exist_ok=True)
        r = subprocess.run(['go', 'test', '-c', '-vet=off', '-overlay', ov, '-o', exe, './' + rel], cwd=REPO, env=ENV, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(exe):
            problem += 'harness of %s does not build: %s\n' % (rel or '.', (r.stdout + r.stderr)[-1500:])
            continue
        env = dict(ENV, VERIF_SEED=seed, VERIF_BUDGET_MS=str(int(budget * 1000 / len(rels))), VERIF_REPLAY=replay, TMPDIR=work)
        try:
            r = subprocess.run([exe, '-test.run', '^TestVerif_%s(_|$)' % prop, '-test.timeout', '%ds' % (budget + 60)], cwd=work, env=env, capture_output=True, text=True, timeout=budget + 90, errors='replace')
            text = r.stdout + r.stderr
        except subprocess.TimeoutExpired as e:
            fails += 'harness of %s hung\n' % rel
            continue
        for m in re.finditer(r'VH-CASES (\S+) (\d+)', text):
            cases += int(m.group(2))
        if r.returncode != 0:
            t = open(replay, errors='replace').read() if os.path.exists(replay) else ''
            fails += (t or text[-6000:]) + '\nreproduce: VERIF_SEED=%s %s %s\n' % (seed, os.path.join(VERIF, 'check.py'), prop)
        elif 'no tests to run' in text:
            problem += 'no harness test for %s in %s\n' % (prop, rel)
    return cases, fails, problem


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    cfg = json.load(open(os.path.join(VERIF, 'checks.json')))[prop]
    exe = build()
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        rc = run(prop, tier, cfg, exe, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, cfg, exe, tmp, t0):
    rep, text = verify(exe, prop, cfg, tier, tmp)
    failed = rep['failed'] if rep else [{'name': 'verifier', 'pos': '', 'status': 'error', 'detail': text[-3000:]}]
    budget = cfg.get('budget', 8) if tier == 'quick' else cfg.get('budget_thorough', 90)
    if failed:
        budget = max(budget, 45)
    cases, fails, problem = 0, '', ''
    if cfg.get('packages') is not None:
        cases, fails, problem = harness(prop, cfg, tier, tmp, budget)
    viol = []
    if failed or fails:
        d = os.path.join(VERIF, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s.txt' % prop)
        with open(p, 'w') as f:
            f.write('property %s\n' % prop)
            for o in failed:
                f.write('FAILED OBLIGATION %s (%s) %s: %s\n' % (o['name'], o['pos'], o['status'], o.get('detail', '')))
            if fails:
                f.write('\n' + fails)
            elif problem:
                f.write('\n' + problem)
            if failed:
                f.write('\n-- verifier output --\n' + text[-8000:])
        viol.append({'replay': p, 'failing_input': bool(fails), 'obligations': [o['name'] for o in failed]})
    for n in problem.splitlines()[:3]:
        print('note:', n)
    cov = {
        'obligations': rep['obligations'] if rep else 0,
        'discharged': rep['discharged'] if rep else 0,
        'checker_cmd': '%s -repo /repo -contracts %s/contracts -prop %s%s' % (exe, VERIF, prop, ' -specs ' + ','.join(cfg['specs']) if cfg.get('specs') else ''),
        'trusted_base': sorted(set((rep['trusted'] if rep else []) + ['gocv (this framework: SSA to SMT translation)', 'golang.org/x/tools/go/ssa', 'z3 4.8.12 / z3 5.x / cvc5 1.1.2', 'Go compiler and runtime'])),
        'functions_under_contract': (rep['functions'] or []) if rep else [],
        'functions_inlined': rep['inlined'] if rep else [],
        'lemmas': rep['lemmas'] if rep else [],
        'by_backend': rep['by_backend'] if rep else {},
        'invariants_proved': rep['invariants_proved'] if rep else 0,
        'solver_seconds': rep['solver_secs'] if rep else 0,
        'solver_calls': rep['solver_calls'] if rep else 0,
        'failed': [o['name'] for o in failed],
        'bounded_cases': cases,
        'bounded_note': cfg.get('bounded', 'seeded random runs of the real code against an oracle; they support the proof and are not counted as proved'),
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': cfg['level'], 'coverage': cov,
          'assumptions': (rep['assumptions'] if rep else []) + cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d functions under contract, %d/%d obligations discharged, %d bounded cases, %.1fs' % (prop, tier, len(cov['functions_under_contract']), cov['discharged'], cov['obligations'], cases, time.time() - t0))
    for o in failed[:20]:
        print('failed obligation: %s (%s)' % (o['name'], o['pos']))
    if fails:
        print(fails[:3000])
    if viol:
        print('VIOLATION property=%s replay=%s%s' % (prop, viol[0]['replay'], '' if fails else ' no-failing-input-found'))
        return 1
    return 0


if __name__ == '__main__':
    main()
