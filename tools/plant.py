#!/usr/bin/env python3
"""python3 tools/plant.py SPEC.py... : each SPEC defines id, prop, edits=[(file, old, new)], demo (python source), needs, breaks.
Confirms in a scratch copy: applies, demo passes before / fails after, stable tests pass; then keeps it in seeded/<id>/"""
import sys, os, json, subprocess, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SH = '#!/bin/bash\nexport PVC_REPO="$PWD" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 %s "$(dirname "$0")/demo.py"\n' % PY
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(spec, tests=True):
    s = {}; exec(open(spec).read(), s)
    tmp = tempfile.mkdtemp(prefix='plant_'); rp = os.path.join(tmp, 'repo'); d = os.path.join(tmp, s['id'])
    try:
        shutil.copytree('/repo', rp, symlinks=True); os.mkdir(d)
        open(os.path.join(d, 'demo.sh'), 'w').write(SH); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom rl import *\n' + s['demo'])
        shutil.copy(os.path.join(H, 'bounded', 'lib.py'), os.path.join(d, 'rl.py'))
        r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=rp)
        if r.returncode: return '%s: demo fails on the unchanged tree\n%s' % (s['id'], r.stdout[-1500:])
        for f, o, n in s['edits']:
            p = os.path.join(rp, f); t = open(p).read()
            if t.count(o) != 1: return '%s: %r occurs %d times' % (s['id'], o, t.count(o))
            open(p, 'w').write(t.replace(o, n))
        r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=rp)
        if r.returncode == 0: return '%s: demo passes with the patch' % s['id']
        out = r.stdout.strip().splitlines()[-1:] 
        diff = sh(['git', 'diff'], cwd=rp).stdout
        # only original lines
        base = sh('git blame -l -s 9082dad..HEAD -- %s' % s['edits'][0][0], cwd='/repo')
        if tests:
            b = json.load(open('/opt/vp/BASELINE.json'))['stable']
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='agg', MPLCONFIGDIR='/tmp/mplc', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONPATH='/opt/vp/plugins:' + rp)
            sel = sorted({'/'.join(x.split('::')[0].split('.')[:2]) + '.py::' + x.split('::')[0].split('.')[2] + '::' + x.split('::')[1] for x in b})
            r = sh([PY, '-m', 'pytest', '-q', '-p', 'vp_seed', '-p', 'no:cacheprovider', '-rA', '--tb=line'] + sel, cwd=rp, env=env)
            ok = {l.split()[1] for l in r.stdout.splitlines() if l.startswith('PASSED')}
            miss = [x for x in sel if x not in ok]
            if miss: return '%s: stable tests fail: %s\n%s' % (s['id'], miss[:4], r.stdout[-800:] if len(miss) > 30 else '')
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        dst = os.path.join(H, 'seeded', s['id'])
        if os.path.exists(dst): shutil.rmtree(dst)
        shutil.copytree(d, dst)
        return '%s: kept (%s)' % (s['id'], ' '.join(out)[:200])
    finally: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    args = [a for a in sys.argv[1:] if a != '--no-tests']
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda a: one(a, '--no-tests' not in sys.argv), args): print(r, flush=True)
