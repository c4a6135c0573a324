"""Driver of the deterministic simulator: runs a real binary under libsim.so with a fault plan.

A run is a pure function of (binary, input files, argv, plan). The plan carries the PRNG seed,
the rates and the explicit fault list; everything the process sees from outside (system calls,
clock, randomness, allocation) comes from the simulator.
"""
import ctypes, hashlib, json, mmap, multiprocessing as mp, os, random, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

KIND = {1: 'open-read', 2: 'open-write', 3: 'read', 4: 'write', 5: 'close', 6: 'seek', 7: 'rename', 8: 'unlink', 9: 'mkdir', 10: 'rmdir',
        11: 'sync', 12: 'truncate', 13: 'sleep', 14: 'random', 15: 'clock', 16: 'malloc', 17: 'link', 18: 'mpi-send', 19: 'mpi-recv', 20: 'mpi-probe', 21: 'mpi-coll', 22: 'mpi-fin', 23: 'mpi-other', 24: 'lapack', 25: 'stat'}
K = {v: k for k, v in KIND.items()}
ACT = {0: 'none', 1: 'err', 2: 'err-sticky', 3: 'err-file', 4: 'short', 5: 'torn-err', 6: 'crash-before', 7: 'crash-after', 8: 'crash-torn',
       9: 'eintr', 10: 'stall', 11: 'disk-full', 12: 'close-lost'}
A = {v: k for k, v in ACT.items()}
ERRNO = {'EIO': 5, 'ENOSPC': 28, 'EACCES': 13, 'EMFILE': 24, 'EDQUOT': 122, 'ENOMEM': 12, 'EROFS': 30, 'EINTR': 4, 'EEXIST': 17, 'EXDEV': 18, 'EPERM': 1, 'ENOENT': 2, 'EBUSY': 16}
ERRNAME = {v: k for k, v in ERRNO.items()}
MAGIC = 0x4d495331
MAXFAULT, MAXJ, MAXPATH, PATHLEN = 1024, 60000, 1024, 200
OFF = dict(seed=8, p=16, quota=32, malloc=48, clock=80, clock_reads=120, nfault=128, sticky=144, full=224, oplimit=228, fired=232, rseed=296, prefix=304, fault=816, path=25392, j=230192, sc=2150192)
SIZE = 2470336
JOBN = 2470312
MAXDEC, SC_DIN, SC_DOUT = 20000, 120, 160120
CRASH_RC, LIMIT_RC, DEADLOCK_RC, KILLED_RC, RACE_RC, OVERRUN_RC = 197, 198, 193, 199, 192, 194
VERDICT = {0: '', 1: 'deadlock: no process can run', 2: 'livelock: every process polls and nothing is under way', 3: 'step limit reached', 4: 'race'}


class SimError(Exception):
    """The simulator itself failed: never a verdict about the code."""


def no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def scratch_root():
    for d in ('/dev/shm', os.environ.get('TMPDIR', '/tmp'), '/tmp'):
        try:
            st = os.statvfs(d)
            if st.f_bavail * st.f_frsize > (1 << 30) and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return '/tmp'


class Shm:
    def __init__(self, path):
        self.path = path
        with open(path, 'wb') as f:
            f.truncate(SIZE)
        self.fd = os.open(path, os.O_RDWR)
        self.m = mmap.mmap(self.fd, SIZE)

    def reset(self, plan, prefix):
        m = self.m
        nf = struct.unpack_from('<4I', m, OFF['nfault'])
        m[0:OFF['fault']] = b'\0' * OFF['fault']
        np_ = min(nf[2], MAXPATH)
        if np_:
            m[OFF['path']:OFF['path'] + np_ * PATHLEN] = b'\0' * (np_ * PATHLEN)
        struct.pack_into('<II', m, 0, MAGIC, 0)
        struct.pack_into('<Q', m, OFF['seed'], plan.get('seed', 0) & (2**64 - 1))
        struct.pack_into('<4I', m, OFF['p'], plan.get('p_short_r', 0), plan.get('p_short_w', 0), plan.get('p_eintr', 0), plan.get('p_stall', 0))
        struct.pack_into('<qq', m, OFF['quota'], plan.get('quota', -1), 0)
        struct.pack_into('<qqqq', m, OFF['malloc'], plan.get('malloc_fail', -1), plan.get('malloc_sticky', 0), plan.get('malloc_min', 0), 0)
        struct.pack_into('<5q', m, OFF['clock'], plan.get('clock_base', 1700000000 * 10**9), plan.get('clock_step', 1000), plan.get('clock_jump_at', 0), plan.get('clock_jump', 0), 0)
        faults = plan.get('faults', [])
        if len(faults) > MAXFAULT:
            raise SimError('too many faults in plan')
        struct.pack_into('<4I', m, OFF['nfault'], len(faults), 0, 0, 0)
        struct.pack_into('<I', m, OFF['oplimit'], plan.get('op_limit', 0))
        struct.pack_into('<I', m, OFF['rseed'], plan.get('rseed', 1) & 0xffffffff)
        struct.pack_into('<I', m, OFF['rseed'] + 4, plan.get('malloc_shuffle', 0) & 0xffffffff)
        pb = prefix.encode()
        m[OFF['prefix']:OFF['prefix'] + len(pb)] = pb
        for i, (rank, op, act, arg) in enumerate(faults):
            struct.pack_into('<4Iq', m, OFF['fault'] + 24 * i, rank, op, act, 0, arg)
        m[JOBN:JOBN + 16] = b'\0' * 16
        struct.pack_into('<ii', m, JOBN + 16, plan.get('pid_base', 4242), plan.get('pid_step', 1))
        o = OFF['sc']
        m[o:o + SC_DIN] = b'\0' * SC_DIN
        c = plan.get('sched')
        if c:
            din = c.get('din')
            struct.pack_into('<II', m, o, 1 if din is not None else 0, c.get('nranks', 1))
            struct.pack_into('<Q', m, o + 8, c.get('seed', 0))
            struct.pack_into('<4I', m, o + 16, c.get('p_switch', 0), c.get('p_delay', 0), c.get('p_miss', 0), c.get('p_sync', 0))
            struct.pack_into('<4I', m, o + 32, c.get('eager', 1 << 30), c.get('max_delay', 0), c.get('step_limit', 0), c.get('kill_delay', 0))
            if din:
                if len(din) > MAXDEC:
                    raise SimError('too many decisions in plan')
                struct.pack_into('<I', m, o + 48, len(din))
                for i, (x, v) in enumerate(din):
                    struct.pack_into('<II', m, o + SC_DIN + 8 * i, x, v)

    def result(self):
        m = self.m
        armed = struct.unpack_from('<I', m, 4)[0]
        _, nj, npath, over = struct.unpack_from('<4I', m, OFF['nfault'])
        paths = []
        for i in range(min(npath, MAXPATH)):
            b = m[OFF['path'] + i * PATHLEN:OFF['path'] + (i + 1) * PATHLEN]
            paths.append(b.split(b'\0', 1)[0].decode('utf8', 'replace'))
        j = []
        for i in range(min(nj, MAXJ)):
            rank, op, kind, act, pid, req, ret = struct.unpack_from('<IIHHiqq', m, OFF['j'] + 32 * i)
            j.append((rank, op, kind, act, paths[pid] if 0 <= pid < len(paths) else '', req, ret))
        malloc_count = struct.unpack_from('<q', m, OFF['malloc'] + 24)[0]
        sim_ns = struct.unpack_from('<q', m, OFF['clock'] + 32)[0]
        fired = struct.unpack_from('<13I', m, OFF['fired'])
        o = OFF['sc']
        ndout, count, pos = struct.unpack_from('<3I', m, o + 52)
        steps, verdict, dropped, maxq = struct.unpack_from('<4I', m, o + 64)
        trace, = struct.unpack_from('<Q', m, o + 80)
        nmsg, nmiss, ndelay, nsync, nswitch, njob = struct.unpack_from('<6I', m, o + 88)
        raw = struct.unpack_from('<%dI' % (2 * ndout), m, o + SC_DOUT) if ndout else ()
        sched = dict(decisions=count, steps=steps, verdict=verdict, dropped=dropped, trace=trace, messages=nmsg, probe_misses=nmiss, delays=ndelay, sync_sends=nsync, switches=nswitch,
                     job_aborts=njob, dout=[(raw[2 * i], raw[2 * i + 1]) for i in range(ndout)])
        return dict(sched=sched, armed=armed, journal=j, overflow=over, malloc_count=malloc_count, sim_ns=sim_ns, fired={ACT[i]: n for i, n in enumerate(fired) if n})


class Result:
    __slots__ = ('rc', 'journal', 'fired', 'malloc_count', 'sim_ns', 'files', 'stderr', 'timeout', 'overflow', 'wall', 'dirs', 'root', 'sched', 'bin')

    def digest(self):
        h = hashlib.sha256()
        h.update(repr((self.rc, self.timeout, self.journal, self.malloc_count, self.sched['trace'], self.sched['steps'], self.sched['verdict'])).encode())
        for k in sorted(self.files):
            b = self.files[k]
            h.update(k.encode() + b'\0' + (b.replace(self.root, b'@DIR@') if self.root else b) + b'\0')
        return h.hexdigest()


def detail(rs):
    """What a digest covers, piece by piece: tells where two executions differ."""
    out = []
    for r in rs:
        out.append([str(r.rc), r.timeout, r.malloc_count, r.sched['trace'], r.sched['steps'], r.sched['verdict'], hashlib.sha1(repr(r.journal).encode()).hexdigest()[:10], len(r.journal)] +
                   ['%s %s' % (k, hashlib.sha1(b.replace(r.root, b'@DIR@')).hexdigest()[:10]) for k, b in sorted(r.files.items())])
    return out


def materialise(root, files):
    for rel, data in files.items():
        p = os.path.join(root, rel)
        d = os.path.dirname(p)
        if d != root:
            os.makedirs(d, exist_ok=True)
        if data is None:
            os.makedirs(p, exist_ok=True)
        else:
            with open(p, 'wb') as f:
                f.write(data)


def snapshot(root):
    out, dirs = {}, []
    for d, ds, fs in os.walk(root):
        for x in ds:
            dirs.append(os.path.relpath(os.path.join(d, x), root))
        for f in fs:
            p = os.path.join(d, f)
            try:
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, root)] = fh.read()
            except OSError:
                pass
    return out, sorted(dirs)


class Runner:
    """One simulated machine: a scratch directory, a shared plan/journal region, and the seam library."""

    def __init__(self, libsim, base):
        self.libsim = libsim
        self.base = base
        os.makedirs(base, exist_ok=True)
        self.shm = Shm(os.path.join(base, 'shm'))
        self.dir = os.path.join(base, 'd')

    def clear(self):
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)

    def run(self, spec, plan, keep=False):
        if not keep:
            self.clear()
            materialise(self.dir, spec['files'])
        self.shm.reset(plan, self.dir)
        env = {'PATH': '/usr/bin:/bin', 'HOME': self.dir, 'LC_ALL': 'C', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
               'LD_PRELOAD': self.libsim, 'SIM_SHM': self.shm.path}
        env.update({k: v.replace('@DIR@', self.dir) for k, v in spec.get('env', {}).items()})
        so = spec.get('stdout', 'stdout.txt')
        if so:
            env['SIM_STDOUT'] = so
        # the environment has the same size in every run: stack layout is part of determinism
        env['SIM_PAD'] = 'x' * (200 - min(150, len(self.dir) * 3))
        outf = open(os.path.join(self.dir, so), 'ab' if keep else 'wb') if so else subprocess.DEVNULL
        errp = os.path.join(self.base, 'stderr')
        r = Result()
        t0 = time.time()
        si = spec.get('stdin')
        inf = open(os.path.join(self.dir, si), 'rb') if si else subprocess.DEVNULL
        if si:
            env['SIM_STDIN'] = si
        with open(errp, 'wb') as ef:
            p = subprocess.Popen([spec['bin']] + [a.replace('@DIR@', self.dir) for a in spec['argv']], cwd=os.path.join(self.dir, spec.get('cwd', '')), env=env, stdin=inf, stdout=outf, stderr=ef, start_new_session=True)
            r.timeout = False
            try:
                p.wait(spec.get('timeout', 60))
            except subprocess.TimeoutExpired:
                r.timeout = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        if so:
            outf.close()
        if si:
            inf.close()
        r.wall = time.time() - t0
        r.rc = p.returncode
        if r.rc in (195, 196):
            raise SimError('libsim could not install itself (exit %d)' % r.rc)
        d = self.shm.result()
        if not d['armed']:
            raise SimError('libsim was not loaded into %s' % spec['bin'])
        r.journal, r.fired, r.malloc_count, r.sim_ns, r.overflow = d['journal'], d['fired'], d['malloc_count'], d['sim_ns'], d['overflow']
        r.sched = d['sched']
        r.files, r.dirs = snapshot(self.dir)
        r.root = self.dir.encode()
        with open(errp, 'rb') as ef:
            r.stderr = ef.read(200000)
        return r


def _collect(self, r):
    d = self.shm.result()
    if not d['armed']:
        raise SimError('libsim was not loaded')
    r.journal, r.fired, r.malloc_count, r.sim_ns, r.overflow = d['journal'], d['fired'], d['malloc_count'], d['sim_ns'], d['overflow']
    r.sched = d['sched']
    r.files, r.dirs = snapshot(self.dir)
    r.root = self.dir.encode()


def run_jobs(self, specs, plan, files, stale_dirs=()):
    """Several programs on one simulated machine; specs: list of dict(cwd, bin, argv). rc becomes the list of exit codes."""
    self.clear()
    materialise(self.dir, files)
    for d in stale_dirs:
        os.makedirs(os.path.join(self.dir, d), exist_ok=True)
    self.shm.reset(plan, self.dir)
    env = {'PATH': '/usr/bin:/bin', 'HOME': self.dir, 'LC_ALL': 'C', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1'}
    env.update({k: v.replace('@DIR@', self.dir) for k, v in specs[0].get('env', {}).items()})
    env['SIM_PAD'] = 'x' * (200 - min(150, len(self.dir) * 3))
    cmd = [os.path.join(os.path.dirname(self.libsim), 'simjob'), self.shm.path, self.libsim]
    for s in specs:
        cmd += ['--', os.path.join(self.dir, s['cwd']), 'stdout.txt', s['bin']] + [a.replace('@DIR@', self.dir) for a in s['argv']]
    r = Result()
    t0 = time.time()
    errp = os.path.join(self.base, 'stderr')
    with open(errp, 'wb') as ef:
        p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=ef, start_new_session=True)
        r.timeout = False
        try:
            out, _ = p.communicate(timeout=specs[0].get('timeout', 120))
        except subprocess.TimeoutExpired:
            r.timeout = True
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
    r.wall = time.time() - t0
    rc = {}
    for l in out.decode().split('\n'):
        if l.strip():
            a, b = l.split()
            rc[int(a)] = int(b)
    r.rc = [rc.get(i, -9) for i in range(len(specs))]
    if 196 in r.rc or 195 in r.rc:
        raise SimError('libsim could not install itself in a job')
    _collect(self, r)
    with open(errp, 'rb') as ef:
        r.stderr = ef.read(20000)
    return r


Runner.run_jobs = run_jobs


def fired_key(journal):
    return [(j[0], KIND.get(j[2], j[2]), ACT[j[3]]) for j in journal if j[3]]


def journal_shape(journal):
    """Distinctness measure: the sequence of (kind, file, fault, failed?) without sizes."""
    return hashlib.sha1(repr([(j[0], j[2], j[3], j[4], j[6] < 0) for j in journal]).encode()).hexdigest()


def fault_text(f, journal=None):
    rank, op, act, arg = f
    a = ACT[act]
    s = 'rank %d op %d %s' % (rank, op, a)
    if a in ('err', 'err-sticky', 'err-file', 'close-lost'):
        s += ' ' + ERRNAME.get(arg, str(arg))
    elif a in ('short', 'torn-err', 'crash-torn', 'disk-full'):
        s += ' after %d bytes' % arg
    if journal:
        for j in journal:
            if j[0] == rank and j[1] == op:
                s += ' (%s %s)' % (KIND.get(j[2], '?'), j[4])
                break
    return s


_runner = None
_W = {}


def _init(libsim, root, worker_state):
    global _runner
    no_aslr()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _runner = Runner(libsim, os.path.join(root, 'w%05d' % (os.getpid() % 100000)))
    _W.update(worker_state or {})


def runner():
    return _runner


class Farm:
    """A pool of simulated machines."""

    def __init__(self, libsim, nproc=8, state=None):
        self.root = tempfile.mkdtemp(prefix='nrgsim', dir=scratch_root())
        self.pool = mp.Pool(nproc, _init, (libsim, self.root, state))

    def map(self, fn, jobs, chunk=1):
        return self.pool.imap_unordered(fn, jobs, chunk)

    def close(self):
        self.pool.terminate()
        self.pool.join()
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
