"""Run the verifier on one harness entry point."""
import re
import sys
import time
import traceback
import terms
import solver
import machine
import models
import front
from machine import Machine, State, Unsupported, PathInfeasible, EXIT

sys.setrecursionlimit(20000)


def find_hot(mod):
    """mutable globals that compiled code (not start-up code) may write"""
    hot = set()
    for n, f in mod.funcs.items():
        if '__cxx_global_var_init' in n or n.startswith('_GLOBAL__'):
            continue
        f.parse()
        for b in f.blocks.values():
            for i in b:
                if i.op == 'store' and i.a[1][1][0] == 'glob':
                    hot.add(i.a[1][1][1])
                elif i.op == 'store' and i.a[1][1][0] == 'ce':
                    v = i.a[1][1]
                    if v[1] == 'gep' and v[3][0][1][0] == 'glob':
                        hot.add(v[3][0][1][1])
    return {h for h in hot if h in mod.globals and not h.startswith('_ZGV')}


def start(mod, dem, deadline, use_index_contract=True, history=False):
    """history: the contract itself says what ran before, so variables that live across calls
    have their initial values; otherwise they are arbitrary (anything may have run before)"""
    terms.reset()
    solver.reset()
    solver._full.clear()
    solver._axc.clear()
    solver._fad.clear()
    models.FAM.clear()
    solver.AXIOMS[0] = models.axioms
    mc = Machine(mod, dem, deadline)
    mc.stubs = models.INDEX_STUBS if use_index_contract else {}
    st = State()
    for _, c in sorted(mod.ctors, key=lambda x: int(x[0])):
        st = run_void(mc, st, c)
    mc.obl = [[]]
    mc.fail = [[]]
    mc.entered = {}
    mc.hot_globals = set() if history else find_hot(mod)
    for g in mc.hot_globals:
        if g in mc.globobj and mc.globobj[g] in st.mem:
            mc.havoc_flat(st.mem[mc.globobj[g]], g)
    return mc, st


def run_void(mc, st, name):
    s, _ = mc.call_fn(st, name, [])
    return s


def run_harness(mod, dem, fname, seconds=600, use_index_contract=True):
    t0 = time.time()
    res = {'harness': fname, 'status': 'proved', 'reason': None}
    for k in solver.STATS:
        solver.STATS[k] = 0
    mc = None
    try:
        mc, st = start(mod, dem, t0 + seconds, use_index_contract, 'again' in fname)
        fn = mod.funcs[fname].parse()
        mc.push(st, fn, [], None)
        st.frames[-1].cont = 'STOP'
        evs = mc.explore(st, ('ret', 0))
        res['ends'] = len(evs)
    except Unsupported as e:
        res['status'] = 'undecided'
        res['reason'] = str(e)
        res['tb'] = traceback.format_exc()[-2500:]
        res['at'] = getattr(mc, 'last_where', None)
    except RecursionError as e:
        res['status'] = 'undecided'
        res['reason'] = 'recursion'
    except Exception as e:
        res['status'] = 'undecided'
        res['reason'] = 'internal: %r' % e
        res['tb'] = traceback.format_exc()[-2500:]
    res['obligations'] = list(mc.obl[0]) if mc else []
    res['failures'] = list(mc.fail[0]) if mc else []
    res['reach'] = dict(mc.reach) if mc else {}
    res['entered'] = dict(mc.entered) if mc else {}
    res['modelled'] = dict(mc.modelled) if mc else {}
    res['assumptions'] = sorted(mc.assumptions) if mc else []
    res['contracts'] = {k: len(v) for k, v in mc.contracts_used.items()} if mc else {}
    res['stats'] = dict(solver.STATS)
    res['wall'] = time.time() - t0
    if any(f.status == 'refuted' for f in res['failures']):
        res['status'] = 'refuted'
    elif res['failures'] and res['status'] == 'proved':
        res['status'] = 'unproved'
    return res


if __name__ == '__main__':
    import os
    import tempfile
    h = sys.argv[1]
    work = '/tmp/w/p_' + h
    os.makedirs(work, exist_ok=True)
    mod, dem = front.load(front.build(work, [h + '.cc'], front.profile('C' + h[1:])))
    fs = [f for f in mod.funcs if f.startswith('vp') and (len(sys.argv) < 3 or re.search(sys.argv[2], f))]
    for f in fs:
        r = run_harness(mod, dem, f, use_index_contract='C01' not in f)
        print(f, r['status'], r['reason'], '%.1fs' % r['wall'], 'obl', len(r['obligations']), 'reach', r['reach'], r['stats'])
        if r.get('tb'):
            print(r['tb'])
            print(r.get('at'))
        for x in r['failures'][:10]:
            print('  FAIL', x.status, x.name, '|', x.kind, '|', x.text[:1500] if x.text else '', '|', x.where)
            print('     model', {terms.atom_str(terms.ATOMS[i]): str(v) for i, v in (x.model or {}).items() if terms.ATOMS[i].kind in ('sym','app')} )
        from collections import Counter
        print('   ', Counter((o[1], o[2], o[3]) for o in r['obligations']))
        if '-v' in sys.argv:
            print('   assumptions', r['assumptions'])
            print('   modelled', sorted(r['modelled']))
