"""developer driver: python3-vt tools/v.py c12 [repo] [-a]"""
import sys, os, importlib
sys.path.insert(0, '/verif')
from pvc.engine import Repo
from pvc.verify import verify, show
names = [a for a in sys.argv[1].split(',')]
root = [a for a in sys.argv[2:] if a.startswith('/')] or ['/repo']
flt = [a[1:] for a in sys.argv[2:] if a.startswith('=')]
for n in names:
    m = importlib.import_module('contracts.' + n)
    for c in m.CONTRACTS:
        if flt and not any(f in c.__name__ for f in flt): continue
        cc = c()
        sel = [a[1:] for a in sys.argv[2:] if a.startswith('@')]
        if sel: cc.scenarios = tuple(x for x in cc.scenarios if any(q in str(x) for q in sel))
        rep = verify(Repo(root[0]), cc, timeout_ms=int(os.environ.get('TMO', 8000)), verbose='-v' in sys.argv)
        show(rep, '-a' in sys.argv)
