#!/usr/bin/env python3
"""check of one property: python3 check.py <id>   (VERIF_TIER, VERIF_SEED from the environment)

1. pvc/main.py parses /repo's current source, generates the obligations of the property's contracts and discharges them;
2. bounded/run.py executes the real functions (bounded stand-in, and search for failing inputs).
Exit 0: every obligation discharged (or, for functions the verifier cannot read, the bounded stand-in silent).
Exit 1 + VIOLATION line otherwise."""
import os, sys, json, time, subprocess, tempfile, signal
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PVC_REPO', '/repo')
PROVER = os.environ.get('PVC_PROVER_PYTHON') or '/opt/veriftools/pyvenv/bin/python3'
RUNNER = os.environ.get('PVC_RUNNER_PYTHON') or '/opt/venv/bin/python'

def known():
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f: out = json.load(f).get('findings', [])
    return out

def spawn(cmd, log):
    env = dict(os.environ); env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PVC_REPO=REPO)
    return subprocess.Popen(cmd, cwd=HERE, stdout=log, stderr=subprocess.STDOUT, env=env, start_new_session=True)

def finish(p, timeout):
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()

def load(path):
    try:
        with open(path) as f: return json.load(f)
    except Exception: return None

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    pb, rb = (420, 150) if tier == 'quick' else (3000, 1500)
    tmp = tempfile.mkdtemp(prefix='pvc_')
    pj, rj = os.path.join(tmp, 'p.json'), os.path.join(tmp, 'r.json')
    log = open(os.path.join(tmp, 'log'), 'w+')
    has_contract = os.path.exists(os.path.join(HERE, 'contracts', prop.lower() + '.py'))
    pp = spawn([PROVER, 'pvc/main.py', prop, '--repo', REPO, '--out', pj, '--budget', str(pb), '--tier', tier], log) if has_contract else None
    rp = spawn([RUNNER, 'bounded/run.py', prop, '--tier', tier, '--seed', str(seed), '--budget', str(rb), '--out', rj], log)
    finish(rp, rb + 200)
    if pp: finish(pp, pb + 60)
    P, Rr = load(pj), load(rj)
    obl, errors, functions, assumed, trusted, lemmas = [], [], set(), set(), [], []
    solver = 0.0
    if has_contract:
        if P is None: errors.append('the prover did not finish')
        else:
            for r in P['results']:
                tag = r['contract'] + ('[%s]' % r['scenario'] if r['scenario'] else '')
                obl += [dict(o, contract=tag) for o in r['obligations']]
                errors += ['%s: %s' % (tag, e) for e in r['errors']]
                functions |= set(r['functions']); assumed |= set(r['assumed']); solver += r['solver_s']
            trusted, lemmas = P['trusted'], P['lemmas']
    proved = [o for o in obl if o['status'] == 'proved']
    failed = [o for o in obl if o['status'] != 'proved']
    if failed and all(o['detail'] in ('no time left', 'not attempted', 'no time left in case analysis') for o in failed):
        errors.append('the prover ran out of time on %d obligations' % len(failed)); failed = []
    if Rr is None:
        Rr = dict(failures=[], stats={'cases': 0, 'paths': 0}, cases={}, notes=['the replay layer did not finish'])
        errors.append('the replay layer did not finish')
    # look harder for a failing input
    if failed and not Rr['failures'] and tier == 'quick':
        r2j = os.path.join(tmp, 'r2.json')
        p2 = spawn([RUNNER, 'bounded/run.py', prop, '--tier', 'thorough', '--seed', str(seed + 1), '--budget', '120', '--out', r2j], log)
        finish(p2, 180)
        R2 = load(r2j)
        if R2 and R2['failures']: Rr['failures'] = R2['failures']
    kn = [k for k in known() if k.get('property') == prop]
    def is_known(f):
        return next((k for k in kn if k.get('check') == f['check'] and k.get('contains', '') in f['what']), None)
    hit = {}
    new = []
    for f in Rr['failures']:
        k = is_known(f)
        if k: hit[k['check']] = k
        else: new.append(f)
    for k in kn:
        if k['check'] in hit: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    kinds = {}
    for o in proved: kinds[o['backend'] or 'trivial'] = kinds.get(o['backend'] or 'trivial', 0) + 1
    viol = len(new) + len(failed)
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=viol,
              assumptions=sorted(assumed) + lemmas,
              coverage=dict(obligations=len(obl), discharged=len(proved), discharged_by=kinds, solver_s=round(solver, 2),
                            checker_cmd='%s pvc/main.py %s --repo %s --tier %s' % (PROVER, prop, REPO, tier),
                            trusted_base=['pvc (verification condition generator, /verif/pvc), which reads the Python source of /repo', 'z3 %s' % (P or {}).get('z3', '?'), 'sympy (ring normalisation, obligations discharged by z3+poly)',
                                          'numpy/scipy/stdlib semantics as written in pvc/library.py', 'floating point read as real arithmetic'] + trusted,
                            functions_under_contract=sorted(functions), proof_errors=errors,
                            undischarged=[dict(contract=o['contract'], name=o['name'], where=o['where'], status=o['status']) for o in failed][:40],
                            bounded_stand_in=dict(label='bounded', cases=Rr['stats'].get('cases', 0), executions_enumerated=Rr['stats'].get('paths', 0), families=Rr['cases'], skipped_for_time=Rr['stats'].get('skipped_for_time', 0), notes=Rr['notes'][:10], failures=len(new))))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print('%s: %d/%d obligations discharged (%s), %d functions, solver %.1fs; bounded: %d cases, %d executions enumerated; %.0fs' % (
        prop, len(proved), len(obl), ', '.join('%s %d' % x for x in sorted(kinds.items())), len(functions), solver, Rr['stats'].get('cases', 0), Rr['stats'].get('paths', 0), time.time() - t0))
    for e in errors: print('  undecided by proof, bounded stand-in only: %s' % e[:300])
    rc = 0
    if new or failed:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'replay', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, failing_inputs=new[:10],
                           replay_cmd=('%s bounded/run.py %s --tier %s --seed %d --check %r' % (RUNNER, prop, tier, seed, new[0]['check'])) if new else None,
                           failed_obligations=[dict(contract=o['contract'], name=o['name'], where=o['where'], status=o['status'], verifier_output=o['detail'], path=o['path']) for o in failed[:10]],
                           proof_errors=errors), f, indent=1, default=str)
        for f in new[:3]: print('  failing input: %s: %s' % (f['check'], f['what'][:400]))
        for o in failed[:3]: print('  obligation not discharged: %s: %s @%s (%s) %s' % (o['contract'], o['name'], o['where'], o['status'], o['detail'][:200]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if new else ' no-failing-input-found'))
        rc = 1
    elif has_contract and not obl and errors:
        pass
    log.close()
    import shutil; shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    return rc

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    sys.exit(rc)
