"""python3-vt tools/dbg.py c02 ClassName obligation-substring : print the normalised goal of the matching obligations"""
import os, sys, importlib, z3
sys.path.insert(0, '/verif')
from pvc.engine import Repo, Run
from pvc import terms
from pvc.verify import explore
from pvc.terms import *
from pvc.terms import traits
m = importlib.import_module('contracts.' + sys.argv[1])
c = [c for c in m.CONTRACTS if c.__name__ == sys.argv[2]][0]()
for sc in (c.scenarios[int(sys.argv[4]):] if len(sys.argv) > 4 else c.scenarios):
    c.scenario = sc
    run = explore(Repo("/repo"), c, sc, None)[0]


    for ob in run.obligations.values():
        if sys.argv[3] in ob.name and os.environ.get('P', '') in str(ob.path):
            print('OB', ob.name, ob.path, len(ob.hyps))
            orig = terms._leaf
            def leaf(nz, hyps, g2, timeout_ms, deadline):
                r = orig(nz, hyps, g2, timeout_ms, deadline)
                if r[0] != 'proved':
                    print('LEAF', str(g2)[:3000]); print(r[0])
                    import os
                    if os.environ.get('H'):
                        for h in hyps:
                            if traits(h)[0] and os.environ['H'] in str(h): print('  HYP', str(nz.norm(h)).replace('\n',' ')[:700])
                return r
            terms._leaf = leaf
            terms.discharge(ob, timeout_ms=int(os.environ.get("TMO", 3000)))
            print(ob.status, ob.info if hasattr(ob, 'info') else '')
            sys.exit()
