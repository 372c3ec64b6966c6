"""Compile /repo's current sources and a harness to LLVM IR (no optimisation)."""
import glob
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import ir

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(os.path.dirname(HERE), 'harness')
CXX = ['clang++', '-std=c++14', '-O0', '-fno-exceptions', '-fno-threadsafe-statics', '-ffp-contract=off', '-S', '-emit-llvm', '-w',
       '-Xclang', '-disable-O0-optnone']


class CompileError(Exception):
    pass


def sources(parser=False, files=False):
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, 'src/cpu/**/*.cc'), recursive=True)):
        b = os.path.relpath(f, REPO)
        if ('input-parser' in b and not parser) or ('file-utils' in b and not files):
            continue
        out.append(f)
    return out


def compile_one(src, out, flags):
    r = subprocess.run(CXX + flags + ['-I' + os.path.join(REPO, 'include'), '-I' + HARNESS, src, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise CompileError(src + '\n' + r.stderr[-3000:])
    return out


YAML = '-I' + os.path.join(HARNESS, 'yaml')
FS = '-I' + os.path.join(HARNESS, 'fs')
PROFILES = {'C19': ((YAML,), True, False), 'C22': ((FS,), False, True), 'C23': ((FS,), False, True), 'C24': ((YAML, FS, '-I' + REPO), True, True)}


def profile(pid):
    """compiled like a production build: without BUILD_TESTS, where a refusal ends the process"""
    return PROFILES.get(pid, ((), False, False))


def build(work, harnesses, prof=((), False, False), exceptions=False):
    """returns path of the linked module"""
    flags = list(prof[0]) + (['-fexceptions'] if exceptions else [])
    srcs = sources(prof[1], prof[2])
    jobs = []
    for i, s in enumerate(list(srcs) + [os.path.join(HARNESS, h) for h in harnesses]):
        jobs.append((s, os.path.join(work, 'm%d.ll' % i)))
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda j: compile_one(j[0], j[1], flags), jobs))
    out = os.path.join(work, 'all.ll')
    r = subprocess.run(['llvm-link-18', '-S'] + outs + ['-o', out], capture_output=True, text=True)
    if r.returncode:
        raise CompileError('link\n' + r.stderr[-3000:])
    return out


def load(path):
    mod = ir.Module(open(path).read())
    names = list(mod.funcs) + list(mod.decls) + list(mod.globals)
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    dem = dict(zip(names, r.stdout.split('\n')))
    return mod, dem
