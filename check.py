#!/usr/bin/env python3
"""Decides one property: check.py <property> [quick|thorough]

1. govc (contract based deductive verifier) generates every proof obligation of
   the property from /repo's current source and hands them to the SMT solvers.
2. A replay driver (bounded, labelled so) runs the real code; it supplies the
   failing input when an obligation fails, and stands in for the functions
   which are listed as out of the verifier's reach.
"""
import json, os, re, subprocess, sys, time, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GOVC_REPO', '/repo')
ENV = '/opt/vp/env.sh'
GOVC = os.path.join(HERE, 'bin', 'govc')


def goenv():
    env = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. %s >/dev/null 2>&1; env -0' % ENV], capture_output=True).stdout
    for kv in out.decode(errors='replace').split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            env[k] = v
    return env


def build_govc(env):
    e = dict(env)
    e['GOFLAGS'] = '-mod=vendor'
    os.makedirs(os.path.join(HERE, 'bin'), exist_ok=True)
    tmp = GOVC + '.%d' % os.getpid()
    r = subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=os.path.join(HERE, 'govc'), env=e, capture_output=True, text=True)
    if r.returncode != 0:
        print('govc does not build:\n' + r.stderr)
        sys.exit(3)
    os.replace(tmp, GOVC)


def load_known():
    known, p = [], os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', ln.strip())
            if m:
                known.append(m.groups())
    return known


def run_driver(drv, prop, tier, seed, env, budget):
    """Returns (failures, stats, note)."""
    d = os.path.join(HERE, 'replay', drv['dir'])
    pkg = drv['pkg']
    repl = {}
    for f in sorted(os.listdir(d)):
        if f.endswith('_test.go'):
            repl[os.path.join(REPO, pkg, 'zzverif_' + f)] = os.path.join(d, f)
    ov = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    json.dump({'Replace': repl}, ov)
    ov.close()
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    e = dict(env)
    e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SCRATCH=scratch, VERIF_BUDGET=str(budget), VERIF_PROP=prop)
    try:
        cmd = ['go', 'test', '-overlay', ov.name, '-vet=off', '-count=1', '-timeout', '%ds' % (budget * 3 + 60), '-run', drv['run'], '-v', './' + pkg]
        try:
            r = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True, errors='replace', timeout=budget * 3 + 120)
            out, rc = r.stdout + r.stderr, r.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = str(x.stdout or ''), -1
    finally:
        os.unlink(ov.name)
        shutil.rmtree(scratch, ignore_errors=True)
    fails, stats = [], {}
    for ln in out.splitlines():
        ln = ln.strip()
        if ln.startswith('FAILINPUT '):
            try:
                fails.append(json.loads(ln[10:]))
            except ValueError:
                fails.append({'key': 'unparsed', 'what': ln})
        elif ln.startswith('STATS '):
            try:
                for k, v in json.loads(ln[6:]).items():
                    stats[k] = stats.get(k, 0) + v if isinstance(v, (int, float)) else v
            except ValueError:
                pass
    note = ''
    if not fails and (rc != 0 or not stats):
        note = 'driver %s did not finish (rc %s): %s' % (drv['dir'], rc, out[-1500:])
    return fails, stats, note, ' '.join(cmd)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cfg = json.load(open(os.path.join(HERE, 'checks.json')))[prop]
    env = goenv()
    if not os.path.exists(GOVC):
        build_govc(env)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    known = [k for k in load_known() if k[0] == prop]

    # 1. proof
    res = None
    limit = 800 if tier == 'quick' else 3300
    resf = tempfile.NamedTemporaryFile(suffix='.json', delete=False)
    resf.close()
    cmd = [GOVC, 'check', '-root', REPO, '-contracts', os.path.join(HERE, 'contracts'), '-prop', prop, '-tier', tier, '-maxfail', '10', '-budget', str(limit - 60), '-out', resf.name]
    gout = ''
    try:
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, errors='replace', timeout=limit)
        gout = r.stdout + r.stderr
        try:
            res = json.load(open(resf.name))
        except ValueError:
            res = None
    except subprocess.TimeoutExpired:
        gout = 'timeout'
    os.unlink(resf.name)
    failed = []
    if res is None:
        failed.append({'name': prop + '/verifier', 'kind': 'undecided', 'text': gout[-3000:], 'pos': ''})
        res = {'obligations': 1, 'discharged': 0, 'units': [], 'assumed': [], 'backends': {}, 'solver_secs': 0, 'covers': 0}
    elif res.get('load_error'):
        failed.append({'name': prop + '/load', 'kind': 'undecided', 'text': res['load_error'], 'pos': ''})
        res['obligations'] = 1
    else:
        failed = res.get('failed') or []
        if res['obligations'] == 0:
            failed.append({'name': prop + '/vacuous', 'kind': 'undecided', 'text': 'no obligation was generated', 'pos': ''})

    # 2. replay on the real code
    budget = cfg.get('budget', 20) * (1 if tier == 'quick' else 10)
    if failed:
        budget = int(budget * 1.5)
    fails, drivers, notes = [], [], []
    for drv in cfg.get('drivers', []):
        f, st, note, c = run_driver(drv, prop, tier, seed, env, budget)
        fails += [x for x in f if x.get('property', prop) == prop]
        drivers.append({'driver': drv['dir'], 'package': drv['pkg'], 'bound': drv.get('bound', ''), 'stands_in_for': drv.get('stands_in_for', []), 'stats': st, 'note': note})
        if note:
            notes.append(note)

    new, seen_known = [], {}
    for f in fails:
        hit = [k for k in known if k[1] == f.get('key')]
        if hit:
            seen_known[hit[0][1]] = hit[0]
        else:
            new.append(f)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))

    viol = 0
    if failed or new:
        viol = len(failed) + len(new)
        rp = os.path.join(rdir, '%s-%s.json' % (prop, tier))
        json.dump({'property': prop, 'failing_inputs': new[:20], 'failed_obligations': failed[:40], 'verifier_output': gout[-20000:], 'drivers': drivers}, open(rp, 'w'), indent=1)
        for f in failed[:40]:
            print('failed obligation %s (%s) %s: %s' % (f.get('name'), f.get('pos'), f.get('kind'), f.get('text', '')[:400]))
        for f in new[:5]:
            print('failing input: ' + json.dumps(f)[:1500])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if new else ' no-failing-input-found'))

    units = [u for u in res.get('units') or []]
    trusted = [
        'govc (contract language, SSA to SMT translation in /verif/govc), golang.org/x/tools/go/ssa and the go compiler agreeing on the meaning of the source',
        'z3 4.8.12, z3-new and cvc5 1.1.2: an obligation is discharged when one of them answers unsat',
    ] + ['assumed: ' + a for a in res.get('assumed') or []]
    cov = {
        'obligations': res.get('obligations', 0), 'discharged': res.get('discharged', 0),
        'checker_cmd': 'bin/govc check -prop %s -tier %s' % (prop, tier),
        'trusted_base': trusted,
        'functions_under_contract': [{'name': u['name'], 'kind': u['kind'], 'file': u.get('file', ''), 'obligations': u['obligations'], 'discharged': u['discharged'], 'solver_secs': round(u['solver_secs'], 2), 'inlined': u.get('inlined') or []} for u in units],
        'back_ends': res.get('backends', {}), 'solver_secs': res.get('solver_secs', 0),
        'vacuity_probes': res.get('covers', 0),
        'bounded_checks_not_counted_as_proof': drivers,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'proof'), 'coverage': cov,
          'assumptions': cfg.get('assumptions', []) + ['assumed: ' + a for a in res.get('assumed') or []] + ['driver note: ' + n[:300] for n in notes],
          'wall_s': round(time.time() - t0, 2), 'violations': viol}
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d obligations, %d discharged, %d violations, %.1fs' % (prop, tier, cov['obligations'], cov['discharged'], viol, time.time() - t0))
    for n in notes:
        print('note: ' + n[-600:])
    sys.exit(1 if viol else 0)


main()
