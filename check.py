#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: prove the property on /repo's current tree.

Deciding step: the verifier (engine/) discharges every obligation it generates from the
LLVM IR of /repo's sources and of the contract harness harness/hNN.cc.  Native replay
(native/rt.cc) looks for a failing input of a failed obligation, and stands in, bounded,
for obligations the verifier could not decide."""
import glob
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

try:
    import z3  # noqa: F401
except ImportError:
    if os.environ.get('VP_REEXEC'):
        sys.exit('z3 python bindings not found: run with python3-vt')
    os.environ['VP_REEXEC'] = '1'
    os.execvp('python3-vt', ['python3-vt'] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import front  # noqa: E402

NPROC = min(8, os.cpu_count() or 1)
NOINDEX = ('C01', 'C16', 'C19', 'C23')   # C01 verifies the body of Grid::index, the others do not use grids
JUNK = re.compile(r'^(junk|afterloop|uninit|nan|g_)')

TRUSTED = ['clang 18 front end (C++ to LLVM IR at -O0)', 'the verifier in /verif/engine (symbolic execution, loop summaries, polynomial normalisation)',
           'z3 (python3-vt)', 'contracts of libstdc++ vector, string, map, iostream, allocation and of libm assumed in engine/models.py']


# ------------------------------------------------------------------ proof
def clean(o):
    return json.loads(json.dumps(o, default=str))


def overrides(model):
    """z3 model -> the inputs of the harness it describes"""
    import terms
    out = {}

    def ev(p):
        s = 0
        for m, c in p.t.items():
            t = c
            for (i, e) in m:
                v = model.get(i)
                if v is None:
                    v = 0
                if v == 0 and e < 0:
                    return None
                t = t * v ** e
            s += t
        return s
    for i, v in model.items():
        a = terms.ATOMS[i]
        if isinstance(v, bool):
            continue
        if a.kind == 'sym' and a.name[:2] in ('i:', 'r:'):
            out[a.name] = v
        elif a.kind == 'app' and a.name.startswith('f:'):
            xs = [ev(x) for x in a.args]
            if any(x is None or x != int(x) for x in xs):
                continue
            out['%s(%s)' % (a.name, ','.join(str(int(x)) for x in xs))] = v
    return {k: ('%d' % v if v == int(v) else repr(float(v))) for k, v in out.items()}


def is_junk(f):
    """does the failed goal hang on a value the verifier only over-approximates?"""
    import terms
    ids = set()

    def poly(p):
        for i in p.atoms():
            if i in ids:
                continue
            ids.add(i)
            for x in terms.ATOMS[i].args:
                walk(x)

    def walk(x):
        if isinstance(x, terms.Poly):
            poly(x)
        elif isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'b':
                return
            for y in x:
                walk(y)
    walk(f.goal)
    for g in f.pc:
        walk(g)
    for i in ids:
        a = terms.ATOMS[i]
        if a.kind == 'sym' and JUNK.match(str(a.name)):
            return True
        if a.kind == 'opaquefn' and not str(a.name).startswith('float_'):
            return True
    return False


def job(mod, dem, fname, seconds, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        import prove
        r = prove.run_harness(mod, dem, fname, seconds, use_index_contract='C01' not in fname)
        out = {k: r[k] for k in ('harness', 'status', 'reason', 'reach', 'contracts', 'assumptions', 'stats', 'wall')}
        out['tb'] = r.get('tb')
        out['obligations'] = [list(map(str, o)) for o in r['obligations']]
        out['entered'] = sorted(dem.get(k, k) for k in r['entered'])
        out['modelled'] = sorted(dem.get(k, k) for k in r['modelled'])
        fs = []
        for f in r['failures'][:40]:
            d = {'name': f.name, 'kind': f.kind, 'text': (f.text or '')[:2000], 'where': f.where, 'status': f.status}
            try:
                d['junk'] = is_junk(f)
            except Exception:
                d['junk'] = True
            try:
                d['overrides'] = overrides(f.model) if f.model else {}
            except Exception:
                d['overrides'] = {}
            fs.append(d)
        out['failures'] = fs
        conn.send(clean(out))
    except BaseException as e:  # the verifier itself gave up
        conn.send({'harness': fname, 'status': 'undecided', 'reason': 'verifier: %r' % (e,), 'tb': traceback.format_exc()[-1500:], 'reach': {}, 'contracts': {}, 'assumptions': [],
                   'stats': {}, 'wall': 0, 'obligations': [], 'entered': [], 'modelled': [], 'failures': []})
    conn.close()


def prove_all(mod, dem, fns, seconds, total):
    end = time.time() + total
    ctx = mp.get_context('fork')
    todo = sorted(fns, key=lambda f: (not re.search('3d|idle|translate', f), f))
    run, done = [], {}
    while todo or run:
        while todo and len(run) < NPROC:
            f = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=job, args=(mod, dem, f, max(5, min(seconds, end - time.time())), b))
            p.start()
            b.close()
            run.append((f, p, a, time.time()))
        time.sleep(0.01)
        for x in list(run):
            f, p, a, t0 = x
            if a.poll() or not p.is_alive() or time.time() - t0 > seconds + 30 or time.time() > end + 5:
                r = None
                try:
                    if a.poll():
                        r = a.recv()
                except EOFError:
                    pass
                if p.is_alive() and r is None:
                    p.kill()
                p.join()
                done[f] = r or {'harness': f, 'status': 'undecided', 'reason': 'verifier ended without an answer', 'reach': {}, 'contracts': {}, 'assumptions': [], 'stats': {},
                                'wall': time.time() - t0, 'obligations': [], 'entered': [], 'modelled': [], 'failures': []}
                run.remove(x)
                if done[f]['status'] == 'refuted' and any(not y['junk'] for y in done[f]['failures']):
                    end = min(end, time.time() + 60)   # the verdict is known, the rest is detail
    for r in done.values():
        if r['status'] == 'proved' and (not r['obligations'] or not r['reach'] or any(v == 0 for v in r['reach'].values())):
            r['status'], r['reason'] = 'undecided', 'vacuous: a point that has to be reachable is not'
    return done


# ------------------------------------------------------------------ native replay
NFLAGS = ['-std=c++14', '-w', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern']
# sanitizers first; plain, as the project builds, if that does not link (constants without a definition)
NMODES = [['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], ['-O2', '-g1']]


class Native:
    def __init__(self, pid, work):
        self.pid, self.work, self.exe, self.error = pid, os.path.join(work, 'native'), None, None

    def build(self):
        for m in NMODES:
            if not self.exe:
                self.build_mode(m)
        return self.exe

    def build_mode(self, mode):
        os.makedirs(self.work, exist_ok=True)
        parser = self.pid in ('C19', 'C24')
        fl = NFLAGS + mode + ['-I' + os.path.join(front.REPO, 'include'), '-I' + front.HARNESS]
        files = front.profile(self.pid)[2]
        if files:
            fl += [front.FS, '-I' + front.REPO]
        srcs = front.sources(parser, files) + [os.path.join(HERE, 'native', 'rt.cc'), *[os.path.join(HERE, 'native', 'n' + h[1:]) if parser and h[1:3] == self.pid[1:] else os.path.join(front.HARNESS, h) for h in harnesses(self.pid)]]

        def one(i):
            o = os.path.join(self.work, 'o%d.o' % i)
            r = subprocess.run(['g++'] + fl + ['-c', srcs[i], '-o', o], capture_output=True, text=True)
            return o, r.stderr[-2000:] if r.returncode else None
        with ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(one, range(len(srcs))))
        bad = [e for _, e in rs if e]
        if not bad:
            exe = os.path.join(self.work, 'rt')
            r = subprocess.run(['g++'] + mode + ['-rdynamic', '-Wl,--wrap=exit', '-Wl,--wrap=abort'] + [o for o, _ in rs] + ['-o', exe, '-ldl'] +
                               (['-lyaml-cpp'] if parser else []), capture_output=True, text=True)
            if r.returncode:
                bad = [r.stderr[-2000:]]
            else:
                self.exe = exe
        self.error = bad[0] if bad else None

    def run(self, fname, seed, runs, seconds, over=None):
        args = [self.exe, fname, str(seed), str(runs), str(seconds)]
        if over:
            p = os.path.join(self.work, 'over_%s_%d' % (fname, time.time_ns()))
            with open(p, 'w') as f:
                f.write(''.join('%s=%s\n' % kv for kv in over.items()))
            args.append(p)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:max_allocation_size_mb=4000', UBSAN_OPTIONS='print_stacktrace=0', VP_DICT=numbers())
        try:
            r = subprocess.run(args, capture_output=True, text=True, timeout=seconds + 60, cwd=self.work, env=env)
        except subprocess.TimeoutExpired:
            return {'status': 'timeout', 'line': 'did not end in time', 'err': ''}
        lines = [l for l in r.stdout.split('\n') if l.startswith(('FAIL', 'OK'))]
        line = (lines or r.stdout.strip().split('\n') or [''])[-1][:4000]
        st = 'ok' if r.returncode == 0 else 'fail' if r.returncode == 1 and line.startswith('FAIL') else 'error'
        return {'status': st, 'line': line, 'err': r.stderr[-3000:]}


def numbers():
    """the numbers written in the sources (comments and included headers apart), for the random search"""
    out = set()
    for top in ('include', 'src'):
        for d, _, fs in os.walk(os.path.join(front.REPO, top)):
            for f in fs:
                if f.endswith(('.h', '.hpp', '.cc', '.cpp')):
                    t = open(os.path.join(d, f), errors='replace').read()
                    t = re.sub(r'//[^\n]*|/\*.*?\*/|"[^"\n]*"', ' ', t, flags=re.S)
                    for m in re.findall(r'(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)', t):
                        v = float(m)
                        if v < 1e6:
                            out.add(v)
    return ' '.join('%.17g' % v for v in sorted(out)[:300])


def small(over):
    n = 1
    for k in ('i:nx', 'i:ny', 'i:nz'):
        if k in over:
            n *= int(over[k]) + 2 * int(over.get('i:pad', 2))
    return n <= 200000


# ------------------------------------------------------------------ check
def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) obligation=(.*?) \| (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def harnesses(pid):
    """the contracts of the property, and those of the callee (Grid::index) whose contract stands for its body in them"""
    return ['h%s.cc' % pid[1:]] + (['h01.cc'] if pid not in NOINDEX else [])


def contract_fns(pid, names, thorough):
    fns = [f for f in names if f.startswith('vp%s_' % pid) or pid not in NOINDEX and re.match(r'vpC01_(lemma|[123]d)$', f)]
    return sorted(f for f in set(fns) if thorough or 'thorough' not in f)


def build_ir(pid, work):
    h = harnesses(pid)
    try:
        return front.load(front.build(work, h, front.profile(pid))), None
    except front.CompileError as e:
        err = str(e)
    try:   # code that throws or catches
        return front.load(front.build(work, h, front.profile(pid), exceptions=True)), None
    except front.CompileError as e:
        return None, err


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        return check(pid, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def library(names):
    out = set()
    for n in names:
        if n.startswith('vp_') or 'llvm.' in n or 'GALS::CPU::Grid<' in n and '::index' in n:
            continue
        n = re.sub(r'std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>', 'std::string', n)
        n = re.sub(r'std::(__cxx11::)?basic_(\w+)<char, std::char_traits<char>(, std::allocator<char>)? ?>', r'std::\2', n)
        for _ in range(4):
            n = re.sub(r', std::(allocator|less|char_traits)<[^<>]*(<[^<>]*>)?[^<>]*>', '', n)
        out.add(n[:300])
    return sorted(out)


def check(pid, tier, seed, t0, work):
    thorough = tier == 'thorough'
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    for f in glob.glob(os.path.join(ev, 'replay_%s_*' % pid)):
        os.unlink(f)
    native = Native(pid, work)
    with ThreadPoolExecutor(1) as ex:
        nb = ex.submit(native.build)
        mod, err = build_ir(pid, work)
        nb.result()
    results, fns = {}, []
    if mod:
        mod, dem = mod
        fns = contract_fns(pid, mod.funcs, thorough)
    if not mod:
        if not native.exe:
            print('cannot compile /repo with the contracts of %s:\n%s\n%s' % (pid, err, native.error), file=sys.stderr)
            return 2
        src = ''.join(open(os.path.join(front.HARNESS, h)).read() for h in harnesses(pid))
        fns = contract_fns(pid, re.findall(r'vpC\d\d_\w+', src), False)
        results = {f: {'harness': f, 'status': 'undecided', 'reason': 'front end: ' + err[-300:], 'reach': {}, 'contracts': {}, 'assumptions': [], 'stats': {}, 'wall': 0, 'obligations': [],
                       'entered': [], 'modelled': [], 'failures': []} for f in fns}

    # a short concrete run first: a tree that already fails on it needs no long proof attempt
    pre = {}
    if native.exe:
        with ThreadPoolExecutor(NPROC) as ex:
            pre = dict(zip(fns, ex.map(lambda f: native.run(f, seed * 100000, 300, 4), fns)))
    failing = any(q['status'] == 'fail' for q in pre.values())
    if mod:
        results = prove_all(mod, dem, fns, *((3000, 6000) if thorough else (60, 60) if failing else (300, 300)))

    known = known_findings(pid)
    violations, knowns, bounded, nat = [], [], [], {}

    def search(f):
        r = results[f]
        if pre[f]['status'] == 'fail':
            return pre[f]
        fails = [x for x in r['failures'] if x['status'] == 'refuted']
        for x in fails[:6]:
            if x.get('overrides') and small(x['overrides']):
                for rep in (1, 30):   # the model alone, then with the rest varied
                    q = native.run(f, seed, rep, 10, x['overrides'])
                    if q['status'] == 'fail':
                        q['over'] = x['overrides']
                        return q
        bad = r['status'] != 'proved'
        if not bad and not thorough or failing:
            return pre[f]
        return native.run(f, seed * 100000 + 1000, 200000 if thorough else 20000, 60 if thorough else 25)

    if native.exe:
        with ThreadPoolExecutor(NPROC) as ex:
            for f, q in zip(fns, ex.map(search, fns)):
                nat[f] = q
    for f in fns:
        r, q = results[f], nat.get(f, {'status': 'none', 'line': native.error or '', 'err': ''})
        refuted = [x for x in r['failures'] if x['status'] == 'refuted' and not x['junk']]
        fresh, kf = [], []
        for x in refuted:
            k = [d for (o, d) in known if o == '%s/%s' % (f, x['name'])]
            (kf if k else fresh).append(x)
            knowns += k
        if q['status'] == 'fail':
            if kf and not fresh and any(x['name'] in q['line'] for x in kf):
                continue
            violations.append((f, r, q, fresh[0] if fresh else (r['failures'][0] if r['failures'] else None), True))
        elif fresh:
            violations.append((f, r, q, fresh[0], False))
        elif r['status'] != 'proved' and not kf:
            bounded.append((f, r, q))

    nobl = sum(len(r['obligations']) for r in results.values())
    ndis = sum(1 for r in results.values() for o in r['obligations'] if o[2] == 'discharged')
    back = {}
    for r in results.values():
        for o in r['obligations']:
            if o[2] == 'discharged':
                back[o[3]] = back.get(o[3], 0) + 1
    code = {}
    for r in results.values():
        for n in r['entered']:
            if 'GALS' in n:
                code[n] = 1
    runs = 0
    for q in nat.values():
        m = re.search(r'ran=(\d+)', q['line'])
        runs += int(m.group(1)) if m else 0
    proved = [f for f in fns if results[f]['status'] == 'proved']
    report = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof' if not bounded else 'other',
        'coverage': {
            'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier), 'trusted_base': TRUSTED,
            'by_back_end': back, 'smt_seconds': round(sum(r['stats'].get('z3_time', 0) for r in results.values()), 2),
            'contract_functions': {f: {'status': results[f]['status'], 'reason': results[f]['reason'], 'obligations': len(results[f]['obligations']), 'seconds': round(results[f]['wall'], 2)} for f in fns},
            'repo_functions_verified': sorted(code), 'callee_contracts_used': sorted({k for r in results.values() for k in r['contracts']}),
            'library_functions_assumed': library({n for r in results.values() for n in r['modelled']}),
            'native_cross_check_runs': runs,
            'bounded': [{'function': f, 'why': r['reason'] or 'undecided obligation: ' + '; '.join(x['name'] for x in r['failures'][:3]), 'stand_in': q['line'][:300],
                         'bound': 'random concrete inputs on small grids, compiled with sanitizers'} for f, r, q in bounded],
            'explanation': 'every listed function proved' if not bounded else 'the functions under "bounded" were only tested on concrete inputs in this run; the others are proved',
        },
        'assumptions': sorted({a for r in results.values() for a in r['assumptions']} | {'double arithmetic is treated as exact real arithmetic', 'memory allocation succeeds'}),
        'wall_s': 0, 'violations': len(violations), 'violation_details': [],
    }
    rc = 0
    for i, (f, r, q, x, found) in enumerate(violations):
        path = os.path.join(ev, 'replay_%s_%d.txt' % (pid, i))
        with open(path, 'w') as o:
            o.write('property %s, contract %s (harness/h%s.cc)\n' % (pid, f, pid[1:]))
            if x:
                o.write('failed obligation: %s [%s, %s]\nat: %s\n%s\n' % (x['name'], x['kind'], x['status'], x['where'], x['text']))
                o.write('counterexample: %s\n' % json.dumps(x.get('overrides')))
            else:
                o.write('the verifier discharged or could not decide the obligations (%s: %s); the failure below is of the compiled code\n' % (r['status'], r['reason']))
            o.write('native replay: %s\n%s\n' % (q['line'], q['err']))
            if found:
                o.write('replayed against the code of /repo compiled with g++ and sanitizers; reproduce: native/rt %s <seed above> 1 10\n' % f)
        report['violation_details'].append({'contract': f, 'obligation': x['name'] if x else None, 'replay': path, 'failing_input': q['line'][:600] if found else None})
        if i == 0:
            print('%s: %s' % (f, (q['line'] if found else x['name'] + ' is refuted')[:600]))
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if found else ' no-failing-input-found'))
        rc = 1
    for d in sorted(set(knowns)):
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    report['wall_s'] = round(time.time() - t0, 2)
    json.dump(report, open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations discharged, %d/%d contract functions proved, %d bounded, %d native runs, %.1f s' % (pid, tier, ndis, nobl, len(proved), len(fns), len(bounded), runs, time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main())
