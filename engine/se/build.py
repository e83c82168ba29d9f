"""Builds the symbolic and the native variant of the code under test from /repo's current sources."""
import concurrent.futures
import glob
import hashlib
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ENG = os.path.join(ROOT, 'engine')
BUILD = os.path.join(ROOT, 'build')
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
CLANG = '/usr/lib/llvm-18/bin/clang++'
STUBS = ENG + '/stubs'

SYM_FLAGS = ['-O1', '-gline-tables-only', '-w', '-fpermissive', '-DNDEBUG', '-ffp-contract=off', '-fno-vectorize', '-fno-slp-vectorize',
             '-DARMA_DONT_USE_WRAPPER', '-DARMA_DONT_USE_BLAS', '-DARMA_DONT_USE_OPENMP', '-DARMA_RNG_ALT=verif_arma_rng.hpp',
             '-I' + STUBS, '-I' + ENG, '-I' + ENG + '/harness', '-I' + SRC + '/include', '-I' + SRC]
NAT_FLAGS = ['-O3', '-w', '-fpermissive', '-DNDEBUG', '-DARMA_RNG_ALT=verif_arma_rng.hpp',
             '-I' + STUBS, '-I' + ENG, '-I' + ENG + '/harness', '-I' + SRC + '/include', '-I' + SRC]
LIBS = ['-lboost_filesystem', '-lboost_system', '-lboost_timer']


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd[:3]) + ' ...\n' + p.stdout[:1500])


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def sources():
    return sorted(f for f in glob.glob(SRC + '/*.cpp') if os.path.basename(f) != 'boost_python_wrapper.cpp')


def headers():
    return sorted(glob.glob(SRC + '/include/*') + glob.glob(SRC + '/*.hpp'))


def engine_files():
    return (glob.glob(ENG + '/*.cpp') + glob.glob(ENG + '/*.h') + glob.glob(ENG + '/*.hpp') +
            [f for f in glob.glob(STUBS + '/**', recursive=True) if os.path.isfile(f)])


def out(name, cmd):
    """run cmd (ending in -o <file>) unless the content-addressed result exists"""
    path = os.path.join(BUILD, name)
    if not os.path.exists(path):
        tmp = '%s.%d.tmp' % (path, os.getpid())
        run(cmd + ['-o', tmp])
        os.replace(tmp, path)
    return path


def plugin():
    os.makedirs(BUILD, exist_ok=True)
    f = ENG + '/symfp_pass.cpp'
    flags = subprocess.check_output(['/usr/lib/llvm-18/bin/llvm-config', '--cxxflags'], text=True).split()
    return out('symfp-%s.so' % digest([f]), ['g++', '-O1', '-fPIC', '-shared', '-fno-rtti'] + flags + [f])


def build_common():
    """objects of the code under test and runtimes -> dict"""
    os.makedirs(BUILD, exist_ok=True)
    so = plugin()
    dg = digest(engine_files())
    jobs = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 2) as ex:
        jobs['symrt'] = ex.submit(out, 'symrt-%s.o' % dg, ['g++', '-O2', '-c', ENG + '/symrt.cpp'])
        jobs['replayrt'] = ex.submit(out, 'replayrt-%s.o' % dg, ['g++', '-O1', '-c', ENG + '/replayrt.cpp'])
        plug = ['-fpass-plugin=' + so]
        jobs['lapack'] = ex.submit(out, 'lapack-%s.o' % dg, [CLANG] + SYM_FLAGS + plug + ['-c', ENG + '/lapack_stub.cpp'])
        jobs['vrngs'] = ex.submit(out, 'vrngs-%s.o' % dg, [CLANG] + SYM_FLAGS + plug + ['-c', STUBS + '/vrng.cpp'])
        jobs['vrngn'] = ex.submit(out, 'vrngn-%s.o' % dg, ['g++'] + NAT_FLAGS + ['-c', STUBS + '/vrng.cpp'])
        for s in sources():
            d = digest([s] + headers(), dg + ' '.join(SYM_FLAGS + NAT_FLAGS))
            b = os.path.basename(s)[:-4]
            jobs['sym:' + b] = ex.submit(out, 'sym-%s-%s.o' % (b, d), [CLANG] + SYM_FLAGS + plug + ['-c', s])
            jobs['nat:' + b] = ex.submit(out, 'nat-%s-%s.o' % (b, d), ['g++'] + NAT_FLAGS + ['-c', s])
        res = {k: j.result() for k, j in jobs.items()}
    res['plugin'] = so
    res['dg'] = dg
    return res


def build_harness(common, cpp):
    """-> (symbolic executable, native executable)"""
    hf = os.path.join(ENG, 'harness', cpp)
    symobjs = sorted(v for k, v in common.items() if k.startswith('sym:'))
    natobjs = sorted(v for k, v in common.items() if k.startswith('nat:'))
    hh = glob.glob(ENG + '/harness/*.hpp')
    d = digest([hf] + hh + headers(), common['dg'] + ' '.join(symobjs + natobjs))
    base = os.path.splitext(cpp)[0]

    def sym():
        o = out('hs-%s-%s.o' % (base, d), [CLANG] + SYM_FLAGS + ['-fpass-plugin=' + common['plugin']] + ['-c', hf])
        return out('hs-%s-%s' % (base, d), [CLANG, o] + symobjs + [common['lapack'], common['vrngs'], common['symrt']] + LIBS)

    def nat():
        o = out('hn-%s-%s.o' % (base, d), ['g++'] + NAT_FLAGS + ['-O1'] + ['-c', hf])
        return out('hn-%s-%s' % (base, d), ['g++', o] + natobjs + [common['vrngn'], common['replayrt']] + LIBS + ['-larmadillo'])
    with concurrent.futures.ThreadPoolExecutor(max_workers=2) as ex:
        a, b = ex.submit(sym), ex.submit(nat)
        return a.result(), b.result()
