"""Builds the real library from /repo's working tree together with a harness program."""
import os, hashlib, subprocess, glob, shutil, concurrent.futures, sys
import cxx
ROOT = cxx.HERE
OBJ = os.path.join(ROOT, '.work', 'obj')
CXXFLAGS = ['-std=gnu++17', '-O1', '-fopenmp', '-w', '-fPIC'] + cxx.DEFS + cxx.INCS + ['-I' + cxx.REPO + '/src']
LIBS = ['-lopenblas', '-lgsl', '-lgslcblas', '-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lmpi_cxx', '-lmpi', '-fopenmp', '-lpthread']

class BuildError(Exception):
    pass

def hdr_hash():
    h = hashlib.sha256()
    for r in sorted(glob.glob(cxx.REPO + '/include/**/*', recursive=True)):
        if os.path.isfile(r):
            h.update(r.encode()); h.update(open(r, 'rb').read())
    for r in sorted(glob.glob(cxx.REPO + '/src/**/*.h*', recursive=True)):
        h.update(r.encode()); h.update(open(r, 'rb').read())
    h.update(' '.join(CXXFLAGS).encode())
    return h.hexdigest()

def compile_one(src, hh, extra=()):
    h = hashlib.sha256((hh + src + ' '.join(extra)).encode() + open(src, 'rb').read()).hexdigest()[:24]
    o = os.path.join(OBJ, os.path.basename(src) + '.' + h + '.o')
    if not os.path.exists(o):
        tmp = o + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++'] + CXXFLAGS + list(extra) + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise BuildError('%s: %s' % (src, r.stdout.decode('utf8', 'replace')[-1500:]))
        os.replace(tmp, o)
    return o

def build(harness_srcs, exe):
    os.makedirs(OBJ, exist_ok=True)
    hh = hdr_hash()
    hx = hashlib.sha256()
    for r in sorted(glob.glob(ROOT + '/harness/*.h')):
        hx.update(open(r, 'rb').read())
    srcs = [(s, ()) for s in cxx.Program().sources()]
    hs = [(s, ('-DHX="%s"' % hx.hexdigest()[:8], '-I' + ROOT + '/harness')) for s in harness_srcs]
    jobs = hs + sorted(srcs, key=lambda se: -os.path.getsize(se[0]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], hh, j[1]), jobs))
    r = subprocess.run(['g++'] + objs + LIBS + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError('link: ' + r.stdout.decode('utf8', 'replace')[-1500:])
    return exe

def prune(keep=200):
    fs = sorted(glob.glob(OBJ + '/*.o'), key=os.path.getmtime)
    for f in fs[:-keep]:
        os.unlink(f)
