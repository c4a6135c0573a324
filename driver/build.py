"""Builds the code under test from /repo's working tree, and the simulator, into /verif/build."""
import concurrent.futures as cf, fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'build')
TOOLS = ['adapt', 'binavg', 'broaden', 'bw', 'diag', 'hilb', 'intavg', 'integ', 'kk', 'mats', 'nrgchain', 'resample', 'specmoments', 'tdavg', 'unitary', 'matrix']


class BuildError(Exception):
    pass


def pkg(*a):
    try:
        return subprocess.run(['pkg-config'] + list(a), capture_output=True, text=True).stdout.split()
    except OSError:
        return []


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, env=dict(os.environ, SOURCE_DATE_EPOCH='1700000000', TZ='UTC'), **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-3000:]))


def tree_hash(dirs, extra=''):
    h = hashlib.sha256(extra.encode())
    for d in dirs:
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            if '__pycache__' in r:
                continue
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(os.path.relpath(p, d).encode() + b'\0')
                try:
                    with open(p, 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
                except OSError:
                    pass
    return h.hexdigest()[:16]


def cached(name, dirs, extra, make):
    """Build once per content of the sources; an interrupted build leaves no usable directory."""
    os.makedirs(OUT, exist_ok=True)
    dst = os.path.join(OUT, '%s-%s' % (name, tree_hash(dirs, extra)))
    with open(os.path.join(OUT, name + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.isdir(dst):
            return dst
        for x in os.listdir(OUT):
            if x.startswith(name + '-') and os.path.isdir(os.path.join(OUT, x)):
                shutil.rmtree(os.path.join(OUT, x), ignore_errors=True)
        tmp = dst + '.tmp%d' % os.getpid()
        os.makedirs(tmp)
        try:
            make(tmp)
            os.rename(tmp, dst)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return dst


def libsim():
    def make(d):
        sh(['gcc', '-O2', '-Wall', '-fPIC', '-shared', '-o', d + '/libsim.so', VERIF + '/sim/libsim.c'])
        sh(['gcc', '-O2', '-Wall', '-o', d + '/simjob', VERIF + '/sim/simjob.c'])
    return cached('libsim', [VERIF + '/sim'], 'v4', make) + '/libsim.so'


def common_flags():
    return ['-std=gnu++20', '-DNDEBUG', '-w', '-I' + VERIF + '/sim/shim'] + pkg('--cflags', 'eigen3') + ['-I/usr/include/hdf5/serial', '-DFMT_HEADER_ONLY']


def tool_cmd(t, out):
    if t == 'matrix':
        import glob
        return ['g++'] + common_flags() + ['-O1', '-I%s/tools/matrix' % REPO] + sorted(glob.glob(REPO + '/tools/matrix/*.cc')) + ['-o', out, '-lgsl', '-lgslcblas', '-lgmp']
    return ['g++'] + common_flags() + ['-O1', '-I%s/tools/%s' % (REPO, t), '-I%s/c++' % REPO, '-DNRG_HAVE_OPENBLAS=1', '-DNRG_BLAS_VENDOR="OpenBLAS"',
            '%s/tools/%s/%s.cc' % (REPO, t, t), '-o', out, '-lgsl', '-lgslcblas', '-lgmp', '-lopenblas', '-lboost_serialization']


def tools():
    def make(d):
        with cf.ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(sh, tool_cmd(t, os.path.join(d, t))) for t in ['adapt', 'nrgchain', 'broaden', 'unitary'] + [t for t in TOOLS if t not in ('adapt', 'nrgchain', 'broaden', 'unitary')]]
            for f in fs:
                f.result()
    d = cached('tools', [REPO + '/tools', REPO + '/c++', VERIF + '/sim/shim'], 'v1', make)
    return {t: os.path.join(d, t) for t in TOOLS}


def core_flags():
    return (['-std=c++20', '-w', '-DNDEBUG'] + ['-I' + x for x in (VERIF + '/sim/shim', REPO + '/c++', REPO + '/c++/symmetry', REPO + '/c++/symmetry/coefnew', REPO + '/tools', VERIF + '/sim')] + pkg('--cflags', 'eigen3')
            + ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/include/hdf5/serial', '-DFMT_HEADER_ONLY', '-DNRG_SYM_BASIC', '-DOMPI_SKIP_MPICXX'])


LIBS = ['-Wl,-Bstatic', '-lboost_mpi', '-lboost_serialization', '-Wl,-Bdynamic', '-lopenblas', '-lgmp', '-ldl', '-rdynamic']


LAPACK = ['dsyev_', 'dsyevd_', 'dsyevr_', 'zheev_', 'zheevd_', 'zheevr_']
OMPWRAP = ['memcpy', 'memmove', 'memset', 'memcmp', 'malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock',
           'pthread_create', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_allocate_exception']


def wrap(names):
    return ['-Wl,--wrap=' + n for n in names]


def omp():
    """The main program with application-level OpenMP on: every memory access reported, simulated OpenMP library."""
    def make(d):
        f = core_flags() + ['-O1', '-g1', '-fopenmp', '-fsanitize=thread', '-DNRG_ENABLE_APP_OPENMP=1']
        jobs = [['g++'] + f + ['-c', REPO + '/c++/' + x + '.cc', '-o', d + '/' + x + '.o'] for x in ('sym-QS', 'sym-QSZ', 'nrg-lib', 'nrg')]
        jobs += [['gcc', '-O2', '-w', '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I' + VERIF + '/sim', '-c', VERIF + '/sim/%s.c' % x, '-o', d + '/%s.o' % x] for x in ('simmpi', 'simlapack', 'simomp')]
        jobs += [['g++', '-O2', '-c', VERIF + '/sim/simompnew.cc', '-o', d + '/new.o']]
        with cf.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(sh, j) for j in jobs]:
                f.result()
        o = [d + '/' + x + '.o' for x in ('sym-QS', 'sym-QSZ', 'nrg-lib', 'nrg', 'simmpi', 'simlapack', 'simomp', 'new')]
        sh(['g++', '-o', d + '/nrgomp'] + o + LIBS + wrap(LAPACK + OMPWRAP))
        for x in o:
            os.unlink(x)
    return cached('omp', [REPO + '/c++', VERIF + '/sim'], 'v1', make) + '/nrgomp'


def ckpt():
    return core()['ckpt']


def core():
    """The main program (real code, simulated MPI library) and the checkpoint harness."""
    def make(d):
        jobs = [['g++'] + core_flags() + ['-O0', '-c', REPO + '/c++/sym-QS.cc', '-o', d + '/qs.o'],
                ['g++'] + core_flags() + ['-O1', '-c', REPO + '/c++/nrg-lib.cc', '-o', d + '/lib.o'],
                ['g++'] + core_flags() + ['-O1', '-c', REPO + '/c++/sym-QSZ.cc', '-o', d + '/qsz.o'],
                ['g++'] + core_flags() + ['-O1', '-c', REPO + '/c++/nrg.cc', '-o', d + '/nrg.o'],
                ['g++'] + core_flags() + ['-O1', '-c', VERIF + '/harness/resume.cc', '-o', d + '/resume.o'],
                ['gcc', '-O2', '-w', '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I' + VERIF + '/sim', '-c', VERIF + '/sim/simmpi.c', '-o', d + '/mpi.o'],
                ['gcc', '-O2', '-w', '-I' + VERIF + '/sim', '-c', VERIF + '/sim/simlapack.c', '-o', d + '/lapack.o'],
                ['g++'] + core_flags() + ['-O1', VERIF + '/harness/ckpt.cc', '-o', d + '/ckpt'] + LIBS]
        with cf.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(sh, j) for j in jobs]:
                f.result()
        o = [d + '/' + x for x in ('nrg.o', 'lib.o', 'qs.o', 'qsz.o', 'mpi.o', 'lapack.o')]
        sh(['g++', '-o', d + '/nrg'] + o + LIBS + wrap(LAPACK))
        o2 = [d + '/resume.o'] + o[1:]
        sh(['g++', '-o', d + '/resume'] + o2 + LIBS + wrap(LAPACK))
        for x in (o[0], o2[0]):
            os.unlink(x)
    d = cached('core', [REPO + '/c++', VERIF + '/sim', VERIF + '/harness'], 'v4', make)
    return {'dir': d, 'nrg': d + '/nrg', 'ckpt': d + '/ckpt', 'resume': d + '/resume'}


def instantiate():
    """The template tool uses the library of the main program."""
    c = core()['dir']

    def make(d):
        sh(['g++'] + core_flags() + ['-O1', '-DNRGCHAIN_NO_MAIN', '-I%s/tools/nrgchain' % REPO, '-c', REPO + '/tools/nrgchain/nrgchain.cc', '-o', d + '/chain.o'])
        sh(['g++'] + core_flags() + ['-O1', '-I%s/tools/nrgchain' % REPO, '-I%s/tools/instantiate' % REPO, REPO + '/tools/instantiate/instantiate.cc', d + '/chain.o'] +
           [c + '/' + x for x in ('lib.o', 'qs.o', 'qsz.o', 'mpi.o')] + ['-o', d + '/instantiate', '-lgsl', '-lgslcblas'] + LIBS)
    return cached('inst', [REPO + '/tools', REPO + '/c++', VERIF + '/sim', VERIF + '/harness'], 'v1', make) + '/instantiate'


def alltools():
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(instantiate), ex.submit(tools)
        return dict(b.result(), instantiate=a.result())


if __name__ == '__main__':
    t = time.time()
    print(libsim())
    print(alltools())
    print(omp())
    print('%.1f s' % (time.time() - t))
