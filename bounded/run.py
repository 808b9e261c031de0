"""usage: /opt/venv/bin/python bounded/run.py <property> --tier quick|thorough --seed N [--budget s] [--out file] [--check name]"""
import sys, os, json, argparse, importlib, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default='quick'); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=100.0); ap.add_argument('--out'); ap.add_argument('--check')
    a = ap.parse_args()
    from bounded import lib
    h = lib.Harness(a.prop, a.tier, a.seed, a.budget, a.check)
    res = {'prop': a.prop}
    try:
        m = importlib.import_module('bounded.' + a.prop.lower())
        m.run(h)
    except Exception as e:
        h.failures.append(dict(check='import/setup', input=None, what='unexpected %s: %s' % (type(e).__name__, traceback.format_exc()[-900:])))
    res.update(failures=h.failures, stats=h.stats, cases=h.cases, notes=h.notes[:40], wall=time.time() - h.t0)
    if a.out:
        with open(a.out, 'w') as f: json.dump(res, f)
    else:
        print(json.dumps(res, indent=1))
if __name__ == '__main__': main()
