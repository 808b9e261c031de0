"""Runs contracts: explores the real functions, discharges every obligation, reports per obligation."""
import time, os, traceback, itertools, z3
from .terms import *
from . import terms
from .engine import *
from .values import *

class Report:
    def __init__(self, name):
        self.name = name
        self.obligations = []       # dicts
        self.errors = []            # engine level: unsupported constructs, missing roles
        self.functions, self.assumed = set(), set()
        self.paths = 0
        self.solver_s = 0.0
        self.wall = 0.0
    def ok(self): return not self.errors and self.obligations and all(o['status'] == 'proved' for o in self.obligations)
    def failed(self): return [o for o in self.obligations if o['status'] != 'proved']

def candidates(run, role, contract):
    """locals that could play a role no local is named after"""
    out = []
    pred = contract.roles.get(role)
    for key, loc in run.entry_locals.items():
        for n, v in loc.items():
            if n in run.rolemap.values() or n in contract.roles: continue
            try:
                if pred is None or pred(v): out.append(n)
            except Exception: pass
    return list(dict.fromkeys(out))

def explore(repo, contract, scen, deadline, rolemap=None, depth=0):
    """runs; resolves missing roles by type-compatible locals"""
    run = Run(repo, contract, scen, deadline, rolemap)
    try:
        run.explore()
        return [run]
    except MissingRole as e:
        if depth > 5: run.errors.append(str(e)); return [run]
        # entry_locals is filled for loops reached
        cands = candidates(run, e.role, contract)
        outs = []
        for c in cands[:8]:
            rm = dict(run.rolemap); rm[e.role] = c
            outs += explore(repo, contract, scen, deadline, rm, depth + 1)
            if len(outs) > 24: break
        if not outs:
            run.errors.append(str(e)); return [run]
        return outs

def verify(repo, contract, deadline=None, timeout_ms=8000, verbose=False, quick_fail=False):
    t0 = time.time()
    rep = Report(contract.title or contract.target)
    rep.target, rep.prop = contract.target, contract.prop
    for scen in contract.scenarios:
        contract.scenario = scen
        try:
            runs = explore(repo, contract, scen, deadline)
        except (Unsupported, z3.Z3Exception) as e:
            rep.errors.append('%s: %s' % (scen, e)); continue
        except Exception as e:
            rep.errors.append('%s: internal %s: %s' % (scen, type(e).__name__, traceback.format_exc()[-700:])); continue
        best = None
        for run in runs:
            obs, errs = [], ['%s%s' % ((str(scen) + ': ') if scen else '', x) for x in run.errors]
            bad = 0
            for key, ob in run.obligations.items():
                left = None if deadline is None else deadline - time.time()
                if left is not None and left < 1:
                    ob.status, ob.detail = 'unknown', 'no time left'
                else:
                    discharge(ob, timeout_ms=timeout_ms)
                    if getattr(contract, 'backend', None): ob.backend = contract.backend
                if verbose: print('  ', ob.status, round(ob.time, 1), ob.name, ob.where, ob.path, flush=True)
                if ob.status != 'proved':
                    bad += 1
                    if len(runs) > 1 and bad > 2: break
                    if quick_fail: break
            for key, ob in run.obligations.items():
                if ob.status is None: ob.status, ob.detail = 'unknown', 'not attempted'
                obs.append(dict(name=('[%s] ' % (scen,) if scen else '') + ob.name, where=ob.where, status=ob.status, detail=ob.detail,
                                backend=ob.backend, time=round(ob.time, 3), kind=ob.kind, path=list(ob.path)[-8:]))
            for lab in (contract.must_reach(contract.scenario) if callable(contract.must_reach) else contract.must_reach):
                if not run.reached.get(lab): errs.append('%s: %r is not reachable (vacuous contract or changed control flow)' % ((scen,), lab))
            if not run.obligations: errs.append('%s: no obligation generated' % (scen,))
            cur = (len(errs), bad, obs, errs, run)
            if best is None or cur[:2] < best[:2]: best = cur
            if best[0] == 0 and best[1] == 0: break
        _, _, obs, errs, run = best
        rep.obligations += obs; rep.errors += errs
        rep.functions |= run.functions; rep.assumed |= run.assumed; rep.paths += run.paths
    rep.solver_s = sum(o['time'] for o in rep.obligations)
    rep.wall = time.time() - t0
    if verbose: show(rep)
    return rep

def show(rep, all=False):
    n = len(rep.obligations); d = sum(o['status'] == 'proved' for o in rep.obligations)
    print('%s: %d/%d obligations, %d paths, solver %.1fs wall %.1fs' % (rep.name, d, n, rep.paths, rep.solver_s, rep.wall))
    for e in rep.errors: print('   ERROR', e)
    for o in rep.obligations:
        if all or o['status'] != 'proved':
            print('   %-8s %s  @%s  %s  %s %s' % (o['status'], o['name'], o['where'], o['path'], o['time'], o['detail'][:600]))
