#!/usr/bin/env python3
"""Builds MLRL-Boomer from /repo's current working tree into a directory of our own (never into /repo or /opt/vp).

usage: build.py [opt|asan]          prints the directory to put on PYTHONPATH

The C++ sources are globbed (not taken from the meson files), compiled through ccache (keyed on content, so a rebuild on
an unchanged tree costs seconds) and linked like meson does: libmlrlcommon.so, and libmlrl{boosting,seco}.so with the
common objects linked in statically.  The Cython modules are generated, compiled and linked against these.  The Python
sources of all four sub-projects are merged into one package tree.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = '/opt/vp/venv'
PY = VENV + '/bin/python'
JOBS = len(os.sched_getaffinity(0))
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'
GUARD = []

VARIANTS = {
    'opt': (['-O1'], []),
    'asan': (['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr',
              '-fno-sanitize-recover=undefined'], ['-fsanitize=address,undefined']),
}


class BuildError(Exception):
    pass


def run(cmd, **kwargs):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', check=False,
                       **kwargs)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout


def write_if_changed(path, content):
    try:
        with open(path, encoding='utf-8') as f:
            if f.read() == content:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(content)


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0' + p.encode() + b'\0')
    return h.hexdigest()


def build(variant='opt', root=None):
    root = root or os.environ.get('VERIF_BUILD') or os.path.join(VERIF, '.build')
    os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, 'lock.' + variant), 'w', encoding='utf-8') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(variant, root)


CPPFLAGS = ['-D_GLIBCXX_ASSERTIONS=1', '-D_FILE_OFFSET_BITS=64', '-w', '-std=c++20', '-fPIC', '-fopenmp']
CYFLAGS = ['-D_GLIBCXX_ASSERTIONS=1', '-w', '-std=c++17', '-fPIC', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION']


def precompile(out, cflags, pyinc, env):
    """Precompiles the headers of the standard library (and of Python) that most files include anyway."""
    std = ['algorithm', 'array', 'chrono', 'climits', 'cmath', 'cstddef', 'cstdlib', 'functional', 'initializer_list',
           'iterator', 'limits', 'memory', 'optional', 'set', 'stdexcept', 'string', 'type_traits', 'unordered_map',
           'unordered_set', 'utility', 'variant', 'vector']
    result = {}
    jobs = []
    for name, heads, flags in (('cpp', std, CPPFLAGS + cflags),
                               ('cy', ['Python.h'] + std,
                                ['-I' + i for i in pyinc] + CYFLAGS + [f for f in cflags if f != '-O1'] + ['-O0'])):
        path = os.path.join(out, 'pch', name + '.hpp')
        text = ('#define PY_SSIZE_T_CLEAN\n' if name == 'cy' else '') + ''.join(f'#include <{h}>\n' for h in heads)
        stale = not os.path.exists(path + '.gch')
        if not stale:
            with open(path, encoding='utf-8') as f:
                stale = f.read() != text
        write_if_changed(path, text)
        if stale:
            jobs.append(['g++'] + flags + ['-x', 'c++-header', path, '-o', path + '.gch'])
        result[name] = path
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda c: run(c, env=env), jobs))
    return result


def _build(variant, root):
    cflags, lflags = VARIANTS[variant]
    out = os.path.join(root, variant)
    env = dict(os.environ, CCACHE_DIR=os.path.join(root, 'ccache'), CCACHE_BASEDIR='/', CCACHE_NOHASHDIR='1',
               CCACHE_MAXSIZE='4G', CCACHE_COMPILERCHECK='content',
               CCACHE_SLOPPINESS='pch_defines,time_macros,include_file_mtime,include_file_ctime', LANG='C.UTF-8',
               PATH=VENV + '/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    env.pop('PYTHONPATH', None)
    env.pop('LD_PRELOAD', None)
    cxx = (['ccache'] if shutil.which('ccache') else []) + ['g++']
    with open(REPO + '/.version', encoding='utf-8') as f:
        version = f.read().strip()
    cpp = REPO + '/cpp/subprojects'
    pys = REPO + '/python/subprojects'
    projects = ['common', 'boosting', 'seco']
    pyinc = run([PY, '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'],
                env=env).split()
    pch = precompile(out, cflags, pyinc, env)
    incs = {}
    jobs = []  # (obj, cmd)
    objs = {}
    for p in projects:
        conf = os.path.join(out, 'conf', p)
        with open(f'{cpp}/{p}/include/mlrl/{p}/config.hpp.in', encoding='utf-8') as f:
            text = f.read()
        for k, v in {f'mlrl{p}_library_name': 'libmlrl' + p, f'mlrl{p}_library_version': version,
                     f'mlrl{p}_target_architecture': 'x86_64-linux', 'multi_threading_support_enabled': '1',
                     'gpu_support_enabled': '1'}.items():
            text = text.replace('@' + k + '@', v)
        write_if_changed(conf + '/config.hpp', text)
        incs[p] = ['-I' + conf] + ['-I' + f'{cpp}/{q}/include' for q in dict.fromkeys([p, 'common'])]
        objs[p] = []
        for src in sorted(glob.glob(f'{cpp}/{p}/src/**/*.cpp', recursive=True)):
            obj = os.path.join(out, 'obj', p, os.path.relpath(src, f'{cpp}/{p}/src').replace('/', '_') + '.o')
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            objs[p].append(obj)
            jobs.append((obj, cxx + ['-include', pch['cpp']] + incs[p] + GUARD + CPPFLAGS + cflags + ['-c', src, '-o', obj]))
    # Cython
    pxds = sorted(glob.glob(f'{pys}/*/mlrl/*/cython/*.pxd') + glob.glob(f'{pys}/*/mlrl/*/cython/*.pxi'))
    pxd_hash = sha(*pxds)
    cyjobs = []
    mods = {}
    for p in projects:
        mods[p] = []
        for pyx in sorted(glob.glob(f'{pys}/{p}/mlrl/{p}/cython/*.pyx')):
            name = os.path.basename(pyx)[:-4]
            gen = os.path.join(out, 'cy', p, name + '.cpp')
            obj = os.path.join(out, 'obj', 'cy_' + p, name + '.o')
            os.makedirs(os.path.dirname(gen), exist_ok=True)
            os.makedirs(os.path.dirname(obj), exist_ok=True)
            cyjobs.append((pyx, gen))
            pinc = ['-I' + f'{cpp}/{q}/include' for q in dict.fromkeys([p, 'common'])]
            pflags = [f for f in cflags if f != '-O1'] + ['-O0']
            jobs.append((obj, cxx + ['-include', pch['cy']] + ['-I' + i for i in pyinc] + pinc + GUARD
                         + CYFLAGS + pflags + ['-c', gen, '-o', obj]))
            mods[p].append((name, obj))

    cycache = os.path.join(root, 'cycache')
    os.makedirs(cycache, exist_ok=True)

    def cythonize(job):
        pyx, gen = job
        key = os.path.join(cycache, hashlib.sha256((sha(pyx) + pxd_hash).encode()).hexdigest() + '.cpp')
        if not os.path.exists(key):
            tmp = gen + '.tmp.cpp'
            run([VENV + '/bin/cython', '--fast-fail', '-3', '--cplus', '-I', pys + '/common', '-I', pys + '/boosting',
                 '-I', pys + '/seco', pyx, '-o', tmp], env=env)
            with open(tmp, encoding='utf-8') as f:
                text = f.read()
            with open(key + '.tmp', 'w', encoding='utf-8') as f:
                f.write(text)
            os.remove(tmp)
            os.rename(key + '.tmp', key)
        with open(key, encoding='utf-8') as f:
            write_if_changed(gen, f.read())

    def compile_one(job):
        run(job[1], env=env)

    with ThreadPoolExecutor(JOBS) as ex:
        # Cython generation first for the modules, interleaved with the C++ compilation
        cpp_jobs = [j for j in jobs if '/obj/cy_' not in j[0]]
        py_jobs = [j for j in jobs if '/obj/cy_' in j[0]]
        f1 = [ex.submit(cythonize, j) for j in cyjobs]
        f2 = [ex.submit(compile_one, j) for j in sorted(cpp_jobs, key=lambda j: -os.path.getsize(j[1][-3]))]
        for f in f1:
            f.result()
        f3 = [ex.submit(compile_one, j) for j in py_jobs]
        for f in f2 + f3:
            f.result()

    # Python package tree
    site = os.path.join(out, 'site')
    tmp = site + '.new'
    shutil.rmtree(tmp, ignore_errors=True)
    for p in projects + ['testbed']:
        base = f'{pys}/{p}'
        for d, dirs, files in os.walk(base + '/mlrl'):
            dirs[:] = [x for x in dirs if x != '__pycache__']
            for f in files:
                if f.endswith('.py'):
                    dst = os.path.join(tmp, os.path.relpath(d, base), f)
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    if not (f == '__init__.py' and os.path.exists(dst)):
                        shutil.copyfile(os.path.join(d, f), dst)
    lib = {p: os.path.join(tmp, 'mlrl', p, 'cython') for p in projects}

    def link(args):
        run(['g++', '-shared', '-fPIC'] + args + lflags, env=env)

    ar = os.path.join(out, 'libmlrlcommon.a')
    if os.path.exists(ar):
        os.remove(ar)
    run(['ar', 'rcs', ar] + objs['common'], env=env)
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, [
            ['-Wl,-soname,libmlrlcommon.so.1', '-o', lib['common'] + '/libmlrlcommon.so.1'] + objs['common']
            + ['-fopenmp', '-lOpenCL'],
            ['-Wl,-soname,libmlrlboosting.so.1', '-o', lib['boosting'] + '/libmlrlboosting.so.1'] + objs['boosting']
            + [ar, '-fopenmp', '-lOpenCL'],
            ['-Wl,-soname,libmlrlseco.so.1', '-o', lib['seco'] + '/libmlrlseco.so.1'] + objs['seco']
            + [ar, '-fopenmp', '-lOpenCL'],
        ]))
        if variant == 'opt':
            driver = os.path.dirname(os.path.abspath(__file__)) + '/drivers/sampling.cpp'
            os.makedirs(out + '/bin', exist_ok=True)
            dobj = os.path.join(out, 'obj', 'driver_sampling.o')
            run(cxx + ['-include', pch['cpp']] + incs['common'] + GUARD + CPPFLAGS + cflags + ['-c', driver, '-o', dobj], env=env)
            run(['g++', dobj, ar, '-fopenmp', '-lOpenCL', '-o', out + '/bin/sampling'] + lflags, env=env)
        list(ex.map(link, [[obj, f'{lib[p]}/libmlrl{p}.so.1', '-Wl,-rpath,$ORIGIN', '-o', f'{lib[p]}/{name}{SUFFIX}']
                           for p in projects for name, obj in mods[p]]))
    old = site + '.old'
    shutil.rmtree(old, ignore_errors=True)
    if os.path.exists(site):
        os.rename(site, old)
    os.rename(tmp, site)
    shutil.rmtree(old, ignore_errors=True)
    return site


if __name__ == '__main__':
    print(build(sys.argv[1] if len(sys.argv) > 1 else 'opt'))
