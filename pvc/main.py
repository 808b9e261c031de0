"""python3-vt pvc/main.py <property> --repo /repo --out file.json [--budget s] [--tier quick|thorough]: generates and discharges all obligations of a property"""
import sys, os, json, time, argparse, importlib, multiprocessing as mp, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(5000)

def job(a):
    mod, idx, scen, repo, deadline, timeout = a
    from pvc.engine import Repo
    from pvc.verify import verify
    m = importlib.import_module('contracts.' + mod)
    c = m.CONTRACTS[idx]()
    c.scenarios = (scen,)
    t0 = time.time()
    try:
        rep = verify(Repo(repo), c, deadline=deadline, timeout_ms=timeout)
        return dict(contract=type(c).__name__, title=c.title, target=c.target, scenario=scen, obligations=rep.obligations, errors=rep.errors,
                    functions=sorted(rep.functions), assumed=sorted(rep.assumed | set(getattr(c, 'assumes', ()))), paths=rep.paths, solver_s=rep.solver_s, wall=time.time() - t0)
    except BaseException as e:
        return dict(contract=type(c).__name__, title=c.title, target=c.target, scenario=scen, obligations=[], errors=['internal: %s %s' % (type(e).__name__, e)],
                    functions=[], assumed=[], paths=0, solver_s=0, wall=time.time() - t0)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--repo', default='/repo'); ap.add_argument('--out'); ap.add_argument('--budget', type=float, default=500)
    ap.add_argument('--tier', default='quick'); ap.add_argument('--jobs', type=int, default=6)
    a = ap.parse_args()
    t0 = time.time()
    name = a.prop.lower()
    m = importlib.import_module('contracts.' + name)
    timeout = 8000 if a.tier == 'quick' else 20000
    jobs = [(name, i, s, a.repo, t0 + a.budget, timeout) for i, c in enumerate(m.CONTRACTS) for s in (c.all_scenarios(a.tier) if hasattr(c, 'all_scenarios') else c.scenarios)]
    with mp.get_context('spawn').Pool(min(a.jobs, max(1, len(jobs))), maxtasksperchild=1 if len(jobs) <= 24 else 10) as pool:
        res = pool.map(job, jobs, chunksize=1)
    # a second, longer attempt at what was not discharged (a slow machine is not a violation)
    again = [i for i, r in enumerate(res) if any(o['status'] != 'proved' for o in r['obligations'])]
    left = t0 + a.budget - time.time()
    if again and left > 60:
        with mp.get_context('spawn').Pool(min(3, len(again)), maxtasksperchild=1) as pool:
            redo = pool.map(job, [jobs[i][:4] + (t0 + a.budget, timeout * 3) for i in again], chunksize=1)
        bad = lambda r: (len(r['errors']), sum(o['status'] != 'proved' for o in r['obligations']))
        for i, r in zip(again, redo):
            if bad(r) < bad(res[i]): res[i] = r
    import z3
    out = dict(prop=a.prop, results=res, wall=time.time() - t0, lemmas=list(getattr(m, 'LEMMAS', [])), trusted=list(getattr(m, 'TRUSTED', [])), z3=z3.get_version_string())
    if a.out:
        with open(a.out, 'w') as f: json.dump(out, f, default=str)
    else:
        for r in res:
            n = len(r['obligations']); d = sum(o['status'] == 'proved' for o in r['obligations'])
            print('%-28s %-30s %d/%d  paths %d solver %.1fs wall %.1fs' % (r['contract'], r['scenario'], d, n, r['paths'], r['solver_s'], r['wall']))
            for e in r['errors']: print('    ERROR', e)
            for o in r['obligations']:
                if o['status'] != 'proved': print('    %s %s @%s %s' % (o['status'], o['name'], o['where'], o['detail'][:200]))
if __name__ == '__main__': main()
