#!/usr/bin/env python3
"""Build the code under test and the harnesses from /repo's working tree.

The sources of /repo/src and /repo/tpl are mirrored by CONTENT into build/mirror
(only files whose bytes changed are rewritten, so ninja's mtime logic follows
content), then compiled, with a configuration header of our own, into
build/<variant>/libomega_h.a and one executable per property.
"""
import fcntl, os, re, shlex, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
MIRROR = os.path.join(BUILD, 'mirror')

SKIP = {'Omega_h_for.cpp', 'Omega_h_meshb.cpp', 'Omega_h_egads.cpp', 'Omega_h_exodus.cpp',
        'Omega_h_stk.cpp', 'Omega_h_dolfin.cpp', 'Omega_h_adios2.cpp', 'Omega_h_xgc.cpp'}

CONFIG = """#ifndef OMEGA_H_CONFIG_H
#define OMEGA_H_CONFIG_H
#define OMEGA_H_USE_MPI
#define OMEGA_H_THROW
#define OMEGA_H_CHECK_BOUNDS
#define OMEGA_H_USE_ZLIB
#define OMEGA_H_USE_GMSH
#define OMEGA_H_VERSION_MAJOR 9
#define OMEGA_H_VERSION_MINOR 34
#define OMEGA_H_VERSION_PATCH 13
#define OMEGA_H_SEMVER "9.34.13-verif"
#define OMEGA_H_COMMIT "verif"
#define OMEGA_H_CXX_FLAGS ""
#define OMEGA_H_CMAKE_ARGS ""
#endif
"""

VARIANTS = {
    'plain': dict(cxx='g++', flags='-std=c++14 -O1 -g0 -w -D_GLIBCXX_ASSERTIONS', link=''),
    'asan': dict(cxx='clang++',
                 flags='-std=c++14 -O1 -g0 -w -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined '
                       '-fno-sanitize=vptr,function,float-divide-by-zero,float-cast-overflow '
                       '-fno-sanitize-recover=undefined -DPBT_NO_RLIMIT',
                 link='-fsanitize=address,undefined'),
}


def write_if_changed(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, 'rb') as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + '.tmp', 'wb') as f:
        f.write(data)
    os.replace(path + '.tmp', path)
    return True


def mirror(src, dst, pats):
    want = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        for fn in files:
            if not fn.endswith(pats):
                continue
            r = os.path.normpath(os.path.join(rel, fn))
            want.add(r)
            with open(os.path.join(root, fn), 'rb') as f:
                write_if_changed(os.path.join(dst, r), f.read())
    for root, dirs, files in os.walk(dst):
        rel = os.path.relpath(root, dst)
        for fn in files:
            r = os.path.normpath(os.path.join(rel, fn))
            if r not in want:
                os.unlink(os.path.join(root, fn))


def mpi_flags():
    # cached by content of nothing: mpicxx --showme is fast
    try:
        c = subprocess.check_output(['mpicxx', '--showme:compile'], text=True).strip()
        l = subprocess.check_output(['mpicxx', '--showme:link'], text=True).strip()
        return c, l
    except Exception:
        return ('-I/usr/lib/x86_64-linux-gnu/openmpi/include',
                '-L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi_cxx -lmpi')


def lib_sources():
    txt = open(os.path.join(REPO, 'src', 'CMakeLists.txt')).read()
    srcs = []
    for m in re.finditer(r'set\(Omega_h_SOURCES([^)]*)\)', txt):
        for s in re.findall(r'Omega_h_\w+\.cpp', m.group(1)):
            if s not in SKIP and s not in srcs:
                srcs.append(s)
    return srcs


def harness_names():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(VERIF, 'harness', '[A-Z][0-9][0-9]*.cpp')))


def generate():
    src = os.path.join(MIRROR, 'src')
    mirror(os.path.join(REPO, 'src'), src, ('.hpp', '.cpp', '.h', '.c', '.in'))
    mirror(os.path.join(REPO, 'tpl'), os.path.join(MIRROR, 'tpl'), ('.hpp', '.cpp', '.h', '.c'))
    mirror(os.path.join(VERIF, 'harness'), os.path.join(MIRROR, 'harness'), ('.hpp', '.cpp', '.h'))
    write_if_changed(os.path.join(MIRROR, 'inc', 'Omega_h_config.h'), CONFIG)
    mc, ml = mpi_flags()
    inc = f'-I{MIRROR}/inc -I{MIRROR}/src -I{MIRROR}/tpl -I{MIRROR}/harness {mc}'
    out = ['ninja_required_version = 1.5']
    srcs = lib_sources()
    for v, d in VARIANTS.items():
        B = os.path.join(BUILD, v)
        cc = 'ccache ' if False else ''
        out.append(f'rule cc_{v}\n command = {cc}{d["cxx"]} {d["flags"]} {inc} -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc')
        out.append(f'rule ar_{v}\n command = rm -f $out && ar rcs $out $in')
        out.append(f'rule ld_{v}\n command = {d["cxx"]} {d["link"]} $in -o $out {ml} -lgmsh -lz -lpthread')
        objs = []
        for s in srcs:
            o = f'{B}/obj/{s}.o'
            objs.append(o)
            out.append(f'build {o}: cc_{v} {src}/{s}')
        out.append(f'build {B}/libomega_h.a: ar_{v} ' + ' '.join(objs))
        for h in harness_names():
            out.append(f'build {B}/obj/{h}.o: cc_{v} {MIRROR}/harness/{h}.cpp')
            out.append(f'build {B}/{h}: ld_{v} {B}/obj/{h}.o {B}/libomega_h.a')
    write_if_changed(os.path.join(BUILD, 'build.ninja'), '\n'.join(out) + '\n')


def build(targets, jobs=None, log=None):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        generate()
        cmd = ['ninja', '-C', BUILD, '-k', '0']
        if jobs:
            cmd += ['-j', str(jobs)]
        cmd += [os.path.join(BUILD, t) for t in targets]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if log:
            with open(log, 'w') as f:
                f.write(p.stdout)
        if p.returncode:
            sys.stderr.write(p.stdout[-6000:])
        return p.returncode


if __name__ == '__main__':
    a = sys.argv[1:]
    if not a or a == ['setup']:
        a = [f'plain/{h}' for h in harness_names()]
        extra = os.path.join(VERIF, 'tools', 'asan_list')
        if os.path.exists(extra):
            a += [f'asan/{h}' for h in open(extra).read().split()]
    sys.exit(1 if build(a) else 0)
