"""Checks C05..C12: the whole main program (real code) on a simulated machine: disk, clock, randomness, allocator,
message passing between processes, and several programs at once. The oracle is the undisturbed serial run."""
import base64, hashlib, json, os, random, re, subprocess, time
import build as B, simdrv as S

WL = os.path.join(S.VERIF, 'workloads', 'core')
HEAVY = {'test74_QSZ', 'test75_QSZ_polarized', 'test76_QSZ_polarized2', 'test77_QSZ_polarized3', 'legacy_chit1', 'test23_DMNRG', 'test25_NN2avg', 'test27_bins'}
FILEOPS = {S.K[x] for x in ('open-read', 'open-write', 'read', 'write', 'close', 'seek', 'rename', 'unlink', 'mkdir', 'rmdir', 'sync', 'truncate', 'link')}


def build(prop):
    if prop == 'C09':
        return {'nrg': B.omp()}
    c = B.core()
    return {'nrg': c['nrg'], 'resume': c['resume']}


def minimum(prop):
    return 60


# ---------------------------------------------------------------- workloads
TOGGLE = {
    'dmnrg': ['true'], 'cfs': ['true'], 'fdm': ['true'], 'fdmexpv': ['true'], 'fdmmats': ['true'], 'dmnrgmats': ['true'], 'finite': ['true'], 'finitemats': ['true'],
    'savebins': ['true'], 'broaden': ['false'], 'dumpannotated': ['5', '30', '200'], 'dumpabs': ['true'], 'dumpscaled': ['false'], 'dumpgroups': ['false'],
    'dumpenergies': ['true'], 'dumpstates': ['true'], 'dumpsubspaces': ['true'], 'dumpabsenergies': ['true'], 'dumpcorr': ['true'], 'reportdiagonal': ['1', '4'], 'dumpdiagonal': ['3'],
    'keep': ['20', '60', '150'], 'keepmin': ['10'], 'lastall': ['true'], 'strategy': ['all', 'kept'], 'calc0': ['false'], 'removefiles': ['false'], 'reim': ['true'], 'mats': ['3', '40'],
    'diag': ['dsyev', 'dsyevd', 'dsyevr'], 'substeps': ['true'], 'NN1': ['true'], 'T': ['0.01', '0.1'], 'prec_xy': ['16'], 'width_td': ['24'], 'checksumrules': ['true'], 'cfsgt': ['true'], 'fdmls': ['true'],
    'bins': ['100', '300'], 'log': ['w'], 'dumpprecision': ['15'], 'dump_f': ['true'], 'emin': ['1e-3'],
}


def setparam(text, kw):
    out, done = [], False
    for l in text.decode().split('\n'):
        if l.split('=')[0].strip() in kw:
            continue
        out.append(l)
        if l.strip() == '[param]':
            out += ['%s=%s' % x for x in sorted(kw.items())]
    return '\n'.join(out).encode()


def workload(rng, heavy=False, want_dm=False):
    ns = [d for d in sorted(os.listdir(WL)) if heavy or d not in HEAVY]
    d = rng.choice(ns)
    p = os.path.join(WL, d)
    files = {f: open(os.path.join(p, f), 'rb').read() for f in os.listdir(p)}
    kw = {}
    for k in rng.sample(sorted(TOGGLE), rng.choice([0, 1, 2, 4, 6])):
        kw[k] = rng.choice(TOGGLE[k])
    if 'dumpabs' in kw:
        kw['dumpscaled'] = 'false'
    if want_dm:
        kw[rng.choice(['dmnrg', 'fdm', 'cfs', 'fdm'])] = 'true'
    files['param'] = setparam(files['param'], kw)
    return dict(name=' '.join([d] + ['%s=%s' % x for x in sorted(kw.items())]), files=files, argv=[], env={})


def workload_omp(rng):
    s = workload(rng, want_dm=rng.random() < .3)
    kw = {'log': rng.choice(['', 'i', 'iesmtA@#', '@', 'etA', 'sm'])}
    if rng.random() < .35:
        kw.update({rng.choice(['fdmmats', 'finitemats', 'dmnrgmats']): 'true', 'mats': rng.choice(['2', '3', '7']), 'Nmax': '3', 'keep': '30'})
    if rng.random() < .4:
        kw.update(h5raw='true', h5ham='true', h5all=rng.choice(['true', 'false']))
    if rng.random() < .3:
        kw['diag'] = rng.choice(['dsyev', 'dsyevd', 'dsyevr'])
    s['files']['param'] = setparam(s['files']['param'], kw)
    s['name'] = ' '.join([s['name']] + ['%s=%s' % x for x in sorted(kw.items())])
    return s


class Ctx:
    def __init__(self, spec, base):
        self.spec, self.base = spec, base
        self.alt = []   # what another program with the same task writes
        self.outs = sorted(f for f in base.files if spec['files'].get(f) != base.files[f] and f != 'stdout.txt' and '/' not in f)


def run1(R, bins, spec, step, keep=False):
    files = dict(spec['files'])
    for k, v in step.get('files', {}).items():
        if v is None:
            files.pop(k, None)
        else:
            files[k] = v
    if step.get('param'):
        files['param'] = setparam(files['param'], step['param'])
    sp = dict(bin=bins[step.get('bin', 'nrg')], argv=step.get('argv', spec['argv']), env=dict(spec['env'], **step.get('env', {})), files=files, timeout=120)
    if keep:
        S.materialise(R.dir, {k: files[k] for k in ('param',)})
    pl = dict(step.get('plan', {}))
    pl.setdefault('sched', dict(nranks=1))
    pl.setdefault('op_limit', 400000)
    r = R.run(sp, pl, keep=keep)
    r.bin = sp['bin']
    return r


def mkbase(R, bins, spec):
    return run1(R, bins, spec, {})


def diff_text(base, files, outs):
    d = []
    for f in outs:
        a, b = base.files[f], files.get(f)
        if b is None:
            d.append('%s is missing' % f)
        elif a != b:
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            d.append('%s has %d of %d bytes, first difference at byte %d' % (f, len(b), len(a), k))
    return '; '.join(d)[:400]


def same(c, files):
    return any(all(files.get(f) == b[f] for f in c.outs) for b in [c.base.files] + c.alt)


# ---------------------------------------------------------------- judging
def judge_end(r):
    v = r.sched['verdict']
    if v:
        if v == 4:
            return ('race', race_text(r))
        return ({1: 'deadlock', 2: 'livelock', 3: 'step-limit'}[v], S.VERDICT[v])
    if r.timeout or r.rc == S.LIMIT_RC:
        return ('hang', 'the calculation does not end')
    return None


def race_where(r):
    """The two source positions of a reported race."""
    m = re.search(rb'RACE: (\w+) by thread \d+ at \+0x([0-9a-f]+) and (\w+) by thread \d+ at \+0x([0-9a-f]+)', r.stderr)
    if not m:
        return []
    out = []
    for what, pc in ((m.group(1), m.group(2)), (m.group(3), m.group(4))):
        t = subprocess.run(['addr2line', '-Cife', r.bin, '0x%x' % (int(pc, 16) - 1)], capture_output=True, text=True).stdout.split('\n')
        fr = [(re.sub(r'[<(].*', '', t[i]), t[i + 1]) for i in range(0, len(t) - 1, 2)]
        f = next((x for x in fr if x[1].startswith(S.REPO + '/')), fr[0] if fr else ('?', '?'))
        out.append((what.decode(), f[0].split(' ')[-1], os.path.basename(f[1]).split(' ')[0]))
    return sorted(out)


def race_text(r):
    return 'two threads access the same memory without ordering: ' + ' and '.join('%s in %s (%s)' % x for x in race_where(r))


def lasterr(r):
    return r.stderr.decode('utf8', 'replace').strip()[-160:]


def leftover(R, rs, how):
    """The work directory of the last run before, as it was left behind: complete, with files missing, or damaged."""
    ds = [d for d in wdirs(rs[-1].journal) if d in rs[-1].dirs] if rs else []
    if not ds:
        return []
    mode, seed, want = how
    rng = random.Random(seed)
    fs = sorted(f for f in rs[-1].files if f.startswith(ds[0] + '/'))
    pool = [f for f in fs if want in f.rsplit('/', 1)[1]] or fs
    for f in rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 5]))) if mode else []:
        p, b = os.path.join(R.dir, f), rs[-1].files[f]
        if mode == 'missing':
            os.unlink(p)
        elif mode == 'cut' and b:
            with open(p, 'wb') as h:
                h.write(b[:rng.choice([0, 1, rng.randrange(len(b)), len(b) - 1])])
        elif mode == 'garbage':
            with open(p, 'wb') as h:
                h.write(bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 40, len(b)]))))
    return ds[:1]


def run_case(R, bins, c, case):
    j = case['judge']
    if j == 'jobs':
        return run_jobs(R, bins, c, case)
    rs = []
    if any(st.get('bin') == 'resume' for st in case['steps']) and not c.alt:
        # another program: the oracle is its own undisturbed run
        b = run1(R, bins, c.spec, dict(bin='resume', argv=['.']))
        if b.rc or not set(c.outs) <= set(b.files):
            return [b], ('fails', 'the embedding program fails on its own (exit status %s)' % b.rc)
        c.alt.append(b.files)
    for i, st in enumerate(case['steps']):
        if st.get('leftover') is not None:
            st = dict(st, argv=['.'] + leftover(R, rs, st['leftover']))
        r = run1(R, bins, c.spec, st, keep=i > 0)
        rs.append(r)
        v = judge_end(r)
        if v:
            return rs, v
        if j not in ('end', 'must-fail') and 'DONE' in r.files and 'DONE' in c.outs and not same(c, r.files):
            return rs, ('false-marker', 'the completion marker exists after run %d (exit status %s), but ' % (i + 1, r.rc) + diff_text(c.base, r.files, c.outs))
        if i < len(case['steps']) - 1:
            if r.rc == 0 and not same(c, r.files):
                return rs, ('silent', 'run %d: exit status 0, but ' % (i + 1) + diff_text(c.base, r.files, c.outs))
            continue
    if j == 'exit0-complete':
        if r.rc == 0 and not same(c, r.files):
            return rs, ('silent', 'exit status 0, but ' + diff_text(c.base, r.files, c.outs))
    elif j == 'must-equal':
        if r.rc != 0:
            return rs, ('fails', 'exit status %s although nothing fails: %s' % (r.rc, lasterr(r)))
        if not same(c, r.files):
            return rs, ('differs', diff_text(c.base, r.files, c.outs))
    elif j == 'must-fail':
        if r.rc == 0:
            return rs, ('accepted', 'exit status 0 although the input is missing or invalid')
    elif j == 'clean':   # C11: nothing of a completed calculation is left, nothing else touched
        v = clean(c, case, r)
        if v:
            return rs, v
    return rs, None


def tree(files, dirs):
    return set(files) | {d + '/' for d in dirs}


def clean(c, case, r):
    bad_remove = any(j[3] and j[2] in (S.K['unlink'], S.K['rmdir'], S.K['open-read']) for j in r.journal)
    out = [j[4] for j in r.journal if j[1] == 0xffffffff]
    if out:
        return ('outside', 'touched %s' % out[0][1:])
    init = dict(c.spec['files'])
    init.update({k: v for k, v in case['steps'][-1].get('files', {}).items() if v is not None})
    for f, b in init.items():
        if b is not None and f not in c.outs and r.files.get(f) != b:
            return ('foreign', 'file %s, not its own, was %s' % (f, 'removed' if f not in r.files else 'changed'))
    if r.rc in (0,) and not bad_remove:
        extra = sorted(f for f in r.files if f not in init and f not in c.outs and f != 'stdout.txt') + sorted(d + '/' for d in r.dirs if d + '/' not in {os.path.dirname(f) + '/' for f in init} and init.get(d, 0) is not None and not any(f.startswith(d + '/') for f in init))
        if extra:
            return ('left-behind', 'left behind: %s' % ' '.join(extra[:4]))
    if r.rc == 0 and not same(c, r.files):
        return ('silent', 'exit status 0, but ' + diff_text(c.base, r.files, c.outs))
    if not case.get('faulty') and r.rc != 0:
        return ('fails', 'exit status %s although nothing fails: %s' % (r.rc, lasterr(r)))
    return None


def run_jobs(R, bins, c, case):
    """Several calculations sharing one scratch directory, interleaved at every file operation."""
    n = case['n']
    files = {'scratch': None, 'scratch/foreign/unitary3': b'not yours', 'scratch/foreign/rho1': b'nor this', 'scratch/keep.txt': b'x'}
    for i in range(n):
        for f, b in c.spec['files'].items():
            files['j%d/%s' % (i, f)] = b
        files['j%d/other.txt' % i] = b'mine'
    specs = [dict(cwd='j%d' % i, bin=bins['nrg'], argv=['-w', '@DIR@/scratch'], timeout=30) for i in range(n)]
    r = R.run_jobs(specs, dict(case['plan'], op_limit=400000), files)
    rs = [r]
    if r.timeout or any(x == S.LIMIT_RC for x in r.rc):
        return rs, ('hang', 'a calculation does not end (%s)' % r.rc)
    out = [j[4] for j in r.journal if j[1] == 0xffffffff]
    if out:
        return rs, ('outside', 'touched %s' % out[0][1:])
    own, touched = {}, set()   # scratch entry -> the calculation that made it and has not removed it yet
    for j in r.journal:
        if j[4].startswith('scratch/') and j[2] in FILEOPS and j[6] >= 0:
            d = j[4].split('/')[1]
            touched.add(d)
            if j[2] == S.K['mkdir'] and j[4].count('/') == 1:
                own[d] = j[0]
            elif own.get(d, -1) != j[0]:
                return rs, ('shared', 'calculation %d works on scratch entry %s (%s %s), which is %s' % (j[0], d, S.KIND[j[2]], j[4], 'that of calculation %d' % own[d] if d in own else 'not its own'))
            elif j[2] == S.K['rmdir'] and j[4].count('/') == 1:
                del own[d]
    if 'foreign' in touched or 'keep.txt' in touched:
        return rs, ('foreign', 'a calculation touched a foreign scratch entry')
    for f, b in files.items():
        if b is not None and f.split('/')[0] == 'scratch' and r.files.get(f) != b:
            return rs, ('foreign', 'foreign file %s was %s' % (f, 'removed' if f not in r.files else 'changed'))
    crashed = {j[0] for j in r.journal if j[3] in (S.A['crash-before'], S.A['crash-after'], S.A['crash-torn'])}
    faulted = {j[0] for j in r.journal if j[3] and j[3] not in (S.A['short'], S.A['stall'], S.A['eintr'])}
    if any(j[3] in (S.A['err-sticky'], S.A['disk-full']) for j in r.journal):   # the whole machine is affected
        faulted = set(range(n))
    for i in range(n):
        got = {f.split('/', 1)[1]: b for f, b in r.files.items() if f.startswith('j%d/' % i)}
        for f, b in c.spec['files'].items():
            if f not in c.outs and got.get(f) != b:
                return rs, ('foreign', 'calculation %d: input %s was changed' % (i, f))
        if got.get('other.txt') != b'mine':
            return rs, ('foreign', 'calculation %d: an unrelated file was touched' % i)
        if i not in faulted and r.rc[i] != 0:
            return rs, ('fails', 'calculation %d: exit status %s although nothing failed in it' % (i, r.rc[i]))
        if r.rc[i] == 0 and not same(c, got):
            return rs, ('differs', 'calculation %d next to others: ' % i + diff_text(c.base, got, c.outs))
        x = sorted(set(got) - set(c.spec['files']) - set(c.outs) - {'stdout.txt', 'other.txt'})
        if x and i not in faulted:
            return rs, ('left-behind', 'calculation %d left %s in its directory' % (i, x[0]))
    alive = [i for i in range(n) if i not in faulted]
    left = {f.split('/')[1] for f in list(r.files) + r.dirs if f.startswith('scratch/')} - {'foreign', 'keep.txt'}
    for d in left:
        if own.get(d, -1) in alive or d not in own:
            return rs, ('left-behind', 'scratch entry %s was left behind by a completed calculation' % d)
    return rs, None


def digest(rs):
    return hashlib.sha256('|'.join(r.digest() for r in rs).encode()).hexdigest()


# ---------------------------------------------------------------- fault choice
def cls(path, wds):
    """The class of a file: work directory replaced, iteration number stripped."""
    p = path
    for w in wds:
        if p == w:
            return '@W'
        if p.startswith(w + '/'):
            p = '@W/' + p[len(w) + 1:]
    return re.sub(r'\d+(\.tmp)?$', r'N\1', p) if p.startswith('@W/') else p


def wdirs(journal):
    return sorted({j[4] for j in journal if j[2] == S.K['mkdir']}, key=len, reverse=True)


def pick(ops, rng, n, wds):
    by = {}
    for j in ops:
        by.setdefault((cls(j[4], wds), j[2]), []).append(j)
    ks = sorted(by)
    out = []
    if not ks:
        return out
    rng.shuffle(ks)
    for i in range(n):
        v = by[ks[i % len(ks)]]
        m = rng.randrange(3)
        out.append(v[0] if m == 0 else v[-1] if m == 1 else rng.choice(v))
    return out


def faults_at(j, rng):
    rank, op, kind, act, path, req, ret = j
    A, E = S.A, S.ERRNO
    n = S.KIND[kind]
    if n == 'open-read':
        return [[rank, op, A['err'], E[e]] for e in ('EACCES', 'EMFILE', 'EIO', 'ENOENT')]
    if n == 'open-write':
        return [[rank, op, A['err'], E[e]] for e in ('EACCES', 'ENOSPC', 'EMFILE')] + [[rank, op, A['err-sticky'], E['EROFS']]]
    if n == 'read':
        return [[rank, op, A[a], E['EIO']] for a in ('err', 'err-file', 'err-sticky')]
    if n == 'write' and req > 0:
        k = rng.randrange(req)
        return [[rank, op, A['disk-full'], k], [rank, op, A['err-file'], E['EIO']], [rank, op, A['err'], E['EIO']], [rank, op, A['torn-err'], k], [rank, op, A['err'], E['EDQUOT']]]
    if n == 'close':
        return [[rank, op, A['close-lost'], E['EIO']], [rank, op, A['err'], E['EIO']]]
    if n in ('rename', 'unlink', 'mkdir', 'rmdir', 'sync', 'truncate', 'seek', 'link'):
        return [[rank, op, A['err'], E[e]] for e in ('EIO', 'EACCES', 'ENOSPC')]
    return []


def crash_at(j, rng):
    if j[2] == S.K['write'] and j[5] > 1 and rng.random() < .5:
        return [j[0], j[1], S.A['crash-torn'], rng.randrange(1, j[5])]
    return [j[0], j[1], rng.choice([S.A['crash-before'], S.A['crash-after']]), 0]


def shaped(c, rng, R, bins):
    """Half of the workloads run with seeded short transfers, so that a fault can fall inside a file."""
    if rng.random() < .5:
        return {}, c.base
    pl = dict(seed=rng.getrandbits(63), p_short_r=rng.choice([50000, 300000, 700000]), p_short_w=rng.choice([0, 50000, 300000]))
    r = run1(R, bins, c.spec, dict(plan=pl))
    return (pl, r) if r.rc == 0 else ({}, c.base)


def fileops(base):
    return [j for j in base.journal if j[2] in FILEOPS and j[4] not in ('stdout.txt', '') and j[1] != 0xffffffff]


def rsched(rng, n):
    return dict(nranks=n, seed=rng.getrandbits(62), p_switch=rng.choice([0, 20000, 200000, 700000]), p_delay=rng.choice([0, 50000, 500000]), p_miss=rng.choice([0, 100000, 800000]),
                p_sync=rng.choice([0, 0, 200000, 1000000]), eager=rng.choice([0, 64, 4096, 1 << 30]), max_delay=rng.choice([3, 30, 400]), step_limit=3000000, kill_delay=rng.choice([0, 1, 50]))


# ---------------------------------------------------------------- cases
def cases_C05(c, rng, n, R, bins):
    sh, b = shaped(c, rng, R, bins)
    wds = wdirs(b.journal)
    ops = fileops(b)
    for j in pick(ops, rng, n, wds):
        fs = faults_at(j, rng)
        if fs:
            yield dict(judge='exit0-complete', steps=[dict(plan=dict(sh, faults=[rng.choice(fs)]))])
    ins = [j for j in ops if j[4] in c.spec['files'] and j[2] == S.K['read']]
    for j in rng.sample(ins, min(len(ins), n // 6)):
        yield dict(judge='exit0-complete', steps=[dict(plan=dict(sh, faults=[rng.choice(faults_at(j, rng))]))])
    allw = sum(j[6] for j in b.journal if j[2] == S.K['write'] and j[6] > 0)
    for _ in range(n // 8):
        yield dict(judge='exit0-complete', steps=[dict(plan=dict(sh, quota=rng.randrange(allw + 1)))])
    for j in pick(ops, rng, n // 5, wds):
        yield dict(judge='exit0-complete', steps=[dict(plan=dict(sh, faults=[crash_at(j, rng)]))])
    for _ in range(n // 5):
        yield dict(judge='exit0-complete', steps=[dict(plan=dict(sh, malloc_fail=rng.randrange(b.malloc_count), malloc_sticky=rng.randrange(2)))])


def prior(sh, rng, wds, ops, only_crash):
    j = pick(ops, rng, 1, wds)[0]
    f = crash_at(j, rng)
    if not only_crash and rng.random() < .25:
        f = rng.choice(faults_at(j, rng) or [f])
    return dict(plan=dict(sh, faults=[f], rseed=rng.getrandbits(31)))


def cases_C06(c, rng, n, R, bins):
    sh, b = shaped(c, rng, R, bins)
    wds, ops = wdirs(b.journal), fileops(b)
    for i in range(n):
        steps = []
        if rng.random() < .35:
            steps.append(dict(plan=dict(rseed=rng.getrandbits(31))))
        for _ in range(rng.choice([1, 1, 2, 3])):
            steps.append(prior(sh, rng, wds, ops, False))
        steps.append(dict(plan=dict(rseed=rng.getrandbits(31) if rng.random() < .8 else 1)))
        yield dict(judge='must-equal', steps=steps)


def cases_C07(c, rng, n, R, bins):
    for i in range(n):
        yield dict(judge='must-equal', steps=[dict(plan=dict(sched=rsched(rng, rng.choice([2, 2, 3, 3, 4, 5, 6]))))])


BADPARAM = [{'symtype': 'NOSUCH'}, {'symtype': ''}, {'nosuchparameter': '1'}, {'diag_mode': 'NOSUCH'}, {'Lambda': '0.5'}, {'diag': 'nosuch'}, {'strategy': 'nosuch'}, {'T': '-1'}, {'diagratio': '7'}, {'keep': 'many'}, {'specs': 'NOSUCH-NOSUCH'}, {'discretization': 'Q'}]


def cases_C08(c, rng, n, R, bins):
    d = c.spec['files']['data']
    for i in range(n):
        nr = rng.choice([2, 2, 3, 4, 5])
        sc = rsched(rng, nr)
        m = rng.randrange(10)
        if m == 0:   # invalid or missing inputs
            k = rng.randrange(6)
            if k == 0:
                yield dict(judge='must-fail', steps=[dict(plan=dict(sched=sc), files={rng.choice(['data', 'param']): None})], kind='missing input')
            elif k == 1:
                yield dict(judge='end', steps=[dict(plan=dict(sched=sc), files={'data': d[:rng.randrange(len(d))]})], kind='truncated data')
            elif k == 2:
                yield dict(judge='end', steps=[dict(plan=dict(sched=sc), param=rng.choice(BADPARAM))], kind='invalid parameter')
            elif k == 3:
                yield dict(judge='end', steps=[dict(plan=dict(sched=sc), argv=rng.choice([['-h'], ['-w', '@DIR@/nosuch'], ['-w'], ['-x'], ['-w', '@DIR@/param']]))], kind='command line')
            elif k == 4:
                p = c.spec['files']['param']
                yield dict(judge='end', steps=[dict(plan=dict(sched=sc), files={'param': p[:rng.randrange(len(p))]})], kind='truncated param')
            else:
                x = bytearray(d)
                for _ in range(rng.choice([1, 3, 20])):
                    x[rng.randrange(len(x))] = rng.choice(b'0129.-eE#xn \n')
                yield dict(judge='end', steps=[dict(plan=dict(sched=sc), files={'data': bytes(x)})], kind='damaged data')
            continue
        b = run1(R, bins, c.spec, dict(plan=dict(sched=sc)))
        if judge_end(b) or b.rc != 0:
            yield dict(judge='must-equal', steps=[dict(plan=dict(sched=sc))])
            continue
        wds = wdirs(b.journal)
        for _ in range(4):
            k = rng.randrange(6)
            mpi = [j for j in b.journal if S.KIND[j[2]].startswith('mpi')]
            la = [j for j in b.journal if j[2] == S.K['lapack']]
            if k == 5 and la and rng.random() < .6:
                j = rng.choice(la)
                f = [j[0], j[1], S.A['err'], 1]
            elif k <= 1:
                j = rng.choice(mpi if k == 0 else pick(fileops(b), rng, 1, wds))
                f = [j[0], j[1], S.A['crash-before'], 0]
            elif k == 2:
                j = rng.choice(mpi)
                f = [j[0], j[1], S.A['err'], rng.choice([16, 15, 17])]
            elif k == 3:
                j = rng.choice(mpi)
                f = [j[0], j[1], S.A['stall'], rng.choice([10, 1000, 20000])]
            elif k == 4:
                j = pick(fileops(b), rng, 1, wds)[0]
                f = rng.choice(faults_at(j, rng) or [[j[0], j[1], S.A['crash-after'], 0]])
            else:
                f = None
            pl = dict(sched=sc)
            if f:
                pl['faults'] = [f]
                if k == 3:
                    js = rng.sample(mpi, min(len(mpi), rng.choice([1, 4, 12])))
                    pl['faults'] = [[x[0], x[1], S.A['stall'], rng.choice([10, 1000, 20000])] for x in js]
            else:
                pl.update(malloc_fail=rng.randrange(b.malloc_count), malloc_sticky=rng.randrange(2))
            yield dict(judge='must-equal' if k == 3 else 'exit0-complete', steps=[dict(plan=pl)])


def cases_C09(c, rng, n, R, bins):
    mats = 'mats' in c.spec['name']
    for i in range(n):
        nt = rng.choice([2, 2, 3, 4, 8])
        if mats:
            sc = dict(p_switch=rng.choice([200, 2000, 20000]), p_delay=rng.choice([0, 1, 10]))
        else:
            sc = dict(p_switch=rng.choice([0, 100000, 300000, 800000]), p_delay=rng.choice([0, 20, 1000, 10000]))
        sc.update(nranks=1, seed=rng.getrandbits(62), p_miss=rng.choice([0, 0, 100000]))
        pl = dict(sched=sc)
        par = dict(diag_mode=rng.choice(['OpenMP', 'OpenMP', 'OpenMP', 'default']) if mats else 'OpenMP', diagth=str(nt))
        case = dict(judge='must-equal', threads=nt, steps=[dict(plan=pl, param=par, env={'OMP_NUM_THREADS': str(rng.choice([nt, 1, 2, 4]))})])
        m = rng.randrange(5)
        if m == 0:
            b = run1(R, bins, c.spec, case['steps'][0])
            if judge_end(b) or b.rc != 0:
                yield case
                continue
            la = [j for j in b.journal if j[2] == S.K['lapack']]
            k = rng.randrange(3)
            case['judge'] = 'exit0-complete'
            if k == 0 and la:
                j = rng.choice(la)
                case['steps'][0]['plan'] = dict(pl, faults=[[j[0], j[1], S.A['err'], 1]])
                case['kind'] = 'diagonalisation does not converge'
            elif k == 1:
                case['steps'][0]['plan'] = dict(pl, malloc_fail=rng.randrange(b.malloc_count), malloc_sticky=rng.randrange(2))
            else:
                j = pick([j for j in fileops(b) if not j[4].endswith('.h5')], rng, 1, wdirs(b.journal))[0]
                case['steps'][0]['plan'] = dict(pl, faults=[rng.choice(faults_at(j, rng) or [[j[0], j[1], S.A['crash-after'], 0]])])
        yield case


def cases_C10(c, rng, n, R, bins):
    sh, b = shaped(c, rng, R, bins)
    wds, ops = wdirs(b.journal), fileops(b)
    late = [i for i, j in enumerate(ops) if re.search(r'/rho', j[4])]
    late = ops[late[0]:] if late else ops
    par = {'resume': 'true', 'removefiles': 'false'}
    for i in range(n):
        m = rng.randrange(8)
        par = {'resume': 'true', 'removefiles': rng.choice(['true', 'false', 'false'])}
        if m == 0:   # the command-line program starts in a fresh work directory
            steps = [dict(prior(sh, rng, wds, ops, True), param=par) for _ in range(rng.choice([1, 1, 2]))]
            steps.append(dict(plan=dict(rseed=rng.getrandbits(31) if rng.random() < .5 else 1), param={'resume': 'true'}))
            yield dict(judge='must-equal', steps=steps)
            continue
        steps = [dict(prior(sh, rng, wds, late if rng.random() < .7 else ops, True), param=par)]
        last = dict(plan=dict(rseed=rng.getrandbits(31)), param=dict(par, removefiles=rng.choice(['true', 'false'])), bin='resume', leftover=[None, 0, ''])
        if m <= 3:
            if rng.random() < .3:   # the resumed calculation is interrupted as well
                j = rng.choice(late)
                steps.append(dict(last, plan=dict(rseed=rng.getrandbits(31), faults=[crash_at(j, rng)])))
            if rng.random() < .4:
                last['leftover'] = ['missing', rng.getrandbits(31), rng.choice(['rho', 'rho', 'unitary', ''])]
            yield dict(judge='must-equal', steps=steps + [last])
        elif m <= 5:
            last['leftover'] = [rng.choice(['cut', 'garbage']), rng.getrandbits(31), rng.choice(['rho', 'rho', 'unitary', ''])]
            yield dict(judge='exit0-complete', steps=steps + [last], kind='damaged checkpoints')
        else:
            j = rng.choice(ops)
            last['plan']['faults'] = [rng.choice(faults_at(j, rng) or [crash_at(j, rng)])]
            yield dict(judge='exit0-complete', steps=steps + [last])


def cases_C11(c, rng, n, R, bins):
    for i in range(n):
        m = rng.randrange(3)
        if m < 2:
            k = rng.choice([2, 2, 3])
            pl = dict(sched=dict(nranks=1, seed=rng.getrandbits(62), p_switch=rng.choice([2000, 50000, 400000, 1000000])), rseed=rng.getrandbits(31), pid_step=rng.randrange(2))
            case = dict(judge='jobs', n=k, plan=pl)
            if rng.random() < .5:
                ops = [j for j in fileops(c.base)]
                j = pick(ops, rng, 1, wdirs(c.base.journal))[0]
                j = (rng.randrange(k),) + j[1:]
                case['plan'] = dict(pl, faults=[crash_at(j, rng) if rng.random() < .6 else rng.choice(faults_at(j, rng) or [crash_at(j, rng)])])
            yield case
        else:
            wds = wdirs(c.base.journal)
            fl = []
            if rng.random() < .6:
                j = pick(fileops(c.base), rng, 1, wds)[0]
                fl = [rng.choice(faults_at(j, rng) or [crash_at(j, rng)])]
            files = {'scratch/old/unitary1': b'x', 'scratch/unitary0': b'mine', 'unitary0': b'mine too', 'rho1': b'', 'notes.txt': b'n', 'scratch': None}
            yield dict(judge='clean', faulty=bool(fl), steps=[dict(plan=dict(faults=fl, rseed=rng.getrandbits(31)), files=files, argv=rng.choice([[], ['-w', '@DIR@/scratch'], ['-w', 'scratch']]))])


def cases_C12(c, rng, n, R, bins):
    for i in range(n):
        pl = dict(seed=rng.getrandbits(63), p_short_r=rng.choice([0, 50000, 500000, 950000]), p_short_w=rng.choice([0, 50000, 500000, 950000]), p_stall=rng.choice([0, 100000]),
                  clock_base=rng.choice([0, 1700000000, 4102444800, 2**33]) * 10**9, clock_step=rng.choice([0, 1, 10**6, 10**10]), rseed=rng.getrandbits(31))
        if rng.random() < .3:
            pl.update(clock_jump_at=rng.randrange(300), clock_jump=-10**9 * rng.randrange(10**6))
        if rng.random() < .5:
            pl.update(malloc_shuffle=rng.randrange(1, 2**31))
        st = dict(plan=pl, files={}, env={})
        for o in c.outs:
            if rng.random() < .3:
                good = c.base.files[o]
                st['files'][o] = rng.choice([good + good[-50:] + b'x', good[:len(good) // 2], b'1 2 3\n' * rng.randrange(1, 3000), bytes(rng.getrandbits(8) for _ in range(300))])
        m = rng.randrange(5)
        if m == 0:
            st['files']['scr/a'] = b''
            st['argv'] = ['-w', '@DIR@/scr']
        elif m == 1:
            st['files']['some/where/deep/a'] = b''
            st['env']['NRG_WORKDIR'] = '@DIR@/some/where/deep'
        elif m == 2:
            st['files']['x/y'] = b''
            st['argv'] = ['-w', 'x']
            st['env']['NRG_WORKDIR'] = '/nonexistent'
        if rng.random() < .6:
            st['env']['MALLOC_PERTURB_'] = str(rng.randrange(1, 255))
        if rng.random() < .5:
            st['env']['SOME_VARIABLE'] = 'x' * rng.randrange(3000)
        yield dict(judge='must-equal', steps=[st])


CASES = {k[6:]: v for k, v in list(globals().items()) if k.startswith('cases_')}
NCASE = {'C05': 40, 'C06': 12, 'C07': 10, 'C08': 10, 'C09': 10, 'C10': 16, 'C11': 10, 'C12': 12}
ROUNDS = {'C05': 160, 'C06': 160, 'C07': 300, 'C08': 130, 'C09': 160, 'C10': 170, 'C11': 220, 'C12': 220}
TOOL = {'C07': 'mpi', 'C08': 'mpi', 'C09': 'threads', 'C11': 'jobs'}


# ---------------------------------------------------------------- minimisation
def explicit(case, rs):
    """Turn seeded decisions of the judged run into lists."""
    t = json.loads(json.dumps(strip(case)))
    st = t['steps'][-1] if 'steps' in t else t
    pl, r = st['plan'], rs[-1]
    sc = pl.get('sched')
    if sc and (sc.get('nranks', 1) > 1 or case.get('threads')) and sc.get('din') is None and not r.sched['dropped']:
        pl['sched'] = dict(sc, din=[list(x) for x in r.sched['dout']])
    return unstrip(t, case)


def strip(case):
    """JSON form: file contents in base64."""
    def f(d):
        return {k: (None if v is None else base64.b64encode(v).decode()) for k, v in d.items()}
    c = dict(case)
    if 'steps' in c:
        c['steps'] = [dict(s, files=f(s['files'])) if 'files' in s else dict(s) for s in c['steps']]
    return c


def unstrip(t, _=None):
    c = dict(t)
    if 'steps' in c:
        c['steps'] = [dict(s, files={k: (None if v is None else base64.b64decode(v)) for k, v in s['files'].items()}) if 'files' in s else dict(s) for s in c['steps']]
    return c


def hard(rs):
    return {(j[2], j[3], re.sub(r'\d', '', j[4][-20:])) for r in rs for j in r.journal if j[3] and j[3] not in (S.A['short'], S.A['stall'])}


def minimise(R, bins, c, case, verdict, rs, budget=140):
    cur = case
    left = [budget]
    want = hard(rs)

    def ok(t):
        if left[0] <= 0:
            return False
        left[0] -= 1
        try:
            x, v = run_case(R, bins, c, t)
        except S.SimError:
            return False
        return v is not None and v[0] == verdict[0] and hard(x) <= want
    t = explicit(cur, rs)
    if ok(t):
        cur = t
    # fewer steps
    if 'steps' in cur:
        i = 0
        while len(cur['steps']) > 1 and i < len(cur['steps']) - 1:
            t = dict(cur, steps=cur['steps'][:i] + cur['steps'][i + 1:])
            if ok(t):
                cur = t
            else:
                i += 1

    def steps():
        return range(len(cur['steps'])) if 'steps' in cur else [None]

    def plan_of(x, i):
        return x['plan'] if i is None else x['steps'][i].get('plan', {})

    def with_plan(x, i, pl):
        if i is None:
            return dict(x, plan=pl)
        s = list(x['steps'])
        s[i] = dict(s[i], plan=pl)
        return dict(x, steps=s)
    for i in steps():
        for k in ('p_short_r', 'p_short_w', 'p_eintr', 'p_stall', 'clock_base', 'clock_step', 'clock_jump', 'clock_jump_at', 'rseed', 'quota', 'malloc_sticky', 'malloc_shuffle', 'pid_step'):
            pl = plan_of(cur, i)
            if k in pl:
                t = with_plan(cur, i, {a: b for a, b in pl.items() if a != k})
                if ok(t):
                    cur = t
        if i is not None:
            for k in ('files', 'env'):
                for f in list(cur['steps'][i].get(k, {})):
                    s = list(cur['steps'])
                    s[i] = dict(s[i], **{k: {a: b for a, b in s[i][k].items() if a != f}})
                    t = dict(cur, steps=s)
                    if ok(t):
                        cur = t
        for what in ('faults', 'din'):
            def get(x):
                pl = plan_of(x, i)
                return pl.get('faults', []) if what == 'faults' else (pl.get('sched') or {}).get('din') or []

            def put(x, v):
                pl = dict(plan_of(x, i))
                if what == 'faults':
                    pl['faults'] = v
                else:
                    pl['sched'] = dict(pl['sched'], din=v)
                return with_plan(x, i, pl)
            fs = get(cur)
            step = max(1, len(fs) // 2)
            while fs and left[0] > 0:
                k, changed = 0, False
                while k < len(fs) and left[0] > 0:
                    t = put(cur, fs[:k] + fs[k + step:])
                    if ok(t):
                        cur, fs, changed = t, get(t), True
                    else:
                        k += step
                if step == 1 and not changed:
                    break
                step = max(1, step // 2)
    return cur


def signature(prop, case, v, rs):
    ks = set()
    if v[0] == 'race':
        return '%s|race|%s' % (TOOL.get(prop, 'nrg'), ' '.join('%s %s' % x[:2] for x in race_where(rs[-1])))
    for r in rs:
        w = wdirs(r.journal)
        for j in r.journal:
            if j[3] and j[3] not in (S.A['short'], S.A['stall']):
                ks.add('%s %s %s%s' % (S.KIND.get(j[2], '?'), cls(j[4], w), S.ACT[j[3]], ' worker' if j[0] else ''))
    return '%s|%s|%s|%s%s' % (TOOL.get(prop, 'nrg'), v[0], case['judge'], ';'.join(sorted(ks)[:4]), '|' + case['kind'] if case.get('kind') else '')


def fault_list(case, rs):
    out = []
    for i, r in enumerate(rs):
        for j in r.journal:
            if j[3]:
                out.append('run %d: ' % (i + 1) + S.fault_text([j[0], j[1], j[3], abs(j[6])], [j]))
        if r.sched['dout']:
            out.append('run %d: %d scheduling decisions differ from the default: %s' % (i + 1, len(r.sched['dout']), r.sched['dout'][:6]))
    return out[:24]


# ---------------------------------------------------------------- jobs
def job(args):
    prop, wseed, n, bins, heavy, budget = args
    R = S.runner()
    rng = random.Random('%s/%d' % (prop, wseed))
    st = dict(tool=TOOL.get(prop, 'nrg'), runs=0, cases=0, fired={}, shapes=set(), viol=[], err=None, sim_ns=0, unusable=0, samples=[], judged={}, extra={'schedules': set()})
    t0 = time.time()
    ex = st['extra']
    try:
        for _ in range(6):
            spec = workload(rng, heavy, want_dm=rng.random() < .5) if prop != 'C09' else workload_omp(rng)
            base = mkbase(R, bins, spec)
            st['runs'] += 1
            if base.rc == 0 and (heavy or base.malloc_count < 200000):
                break
        else:
            st['unusable'] = 1
            return st
        b2 = mkbase(R, bins, spec)
        st['runs'] += 1
        if b2.digest() != base.digest():
            raise S.SimError('nrg is not deterministic under the simulator: ' + spec['name'])
        c = Ctx(spec, base)
        for case in CASES[prop](c, rng, n, R, bins):
            if time.time() - t0 > budget:
                break
            rs, v = run_case(R, bins, c, case)
            st['runs'] += len(rs)
            st['cases'] += 1
            st['sim_ns'] += sum(r.sim_ns for r in rs)
            st['judged'][case['judge']] = st['judged'].get(case['judge'], 0) + 1
            hit = 0
            for r in rs:
                for k, x in r.fired.items():
                    st['fired'][k] = st['fired'].get(k, 0) + x
                    hit += x
                for k, x in (('messages-delayed', 'delays'), ('probe-misses', 'probe_misses'), ('synchronous-sends', 'sync_sends'), ('process-switches', 'switches')):
                    if r.sched[x]:
                        st['fired'][k] = st['fired'].get(k, 0) + r.sched[x]
                        hit += 1
                if r.sched['trace']:
                    ex['schedules'].add(r.sched['trace'])
                ex['messages'] = ex.get('messages', 0) + r.sched['messages']
                ex['scheduler_steps'] = ex.get('scheduler_steps', 0) + r.sched['steps']
                if any(s.get('plan', {}).get('malloc_shuffle') for s in case.get('steps', [])):
                    st['fired']['other-memory-layout'] = st['fired'].get('other-memory-layout', 0) + 1
                    hit += 1
                if any(j[2] == S.K['malloc'] and j[3] for j in r.journal):
                    st['fired']['alloc-failure'] = st['fired'].get('alloc-failure', 0) + 1
                    hit += 1
            for s in case.get('steps', []):
                if s.get('files') or s.get('argv') or s.get('env') or s.get('param'):
                    st['fired']['other-environment-or-inputs'] = st['fired'].get('other-environment-or-inputs', 0) + 1
                    hit += 1
            k = 'exit-zero' if rs[-1].rc in (0, [0, 0], [0, 0, 0]) else 'exit-nonzero'
            ex[k] = ex.get(k, 0) + 1
            if hit:
                st['shapes'].add('|'.join(S.journal_shape(r.journal) for r in rs) + str([r.sched['trace'] for r in rs]) + hashlib.sha1(spec['name'].encode()).hexdigest()[:6])
            if not st['samples'] and hit:
                st['samples'].append('%s: %s -> exit %s' % (spec['name'], '; '.join(fault_list(case, rs))[:300], rs[-1].rc))
            if v:
                rs2, v2 = run_case(R, bins, c, case)
                if v2 is None or digest(rs2) != digest(rs):
                    raise S.SimError('a violation of %s did not repeat in the same process' % spec['name'])
                sig = signature(prop, case, v, rs)
                if sig in {x['sig'] for x in st['viol']} or len(st['viol']) >= 6:
                    continue
                case = minimise(R, bins, c, case, v, rs)
                rs, v = run_case(R, bins, c, case)
                if v is None:
                    raise S.SimError('a minimised violation did not repeat')
                sig = signature(prop, case, v, rs)
                if sig in {x['sig'] for x in st['viol']}:
                    continue
                st['viol'].append(dict(sig=sig, verdict=list(v), digest=digest(rs), detail=S.detail(rs), case=strip(case), spec=dict(spec, files={k: base64.b64encode(b).decode() for k, b in spec['files'].items()}), faults=fault_list(case, rs), name=spec['name']))
    except S.SimError as e:
        st['err'] = str(e)
    except Exception:
        import traceback
        st['err'] = 'internal: ' + traceback.format_exc()[-900:]
    return st


def replay(doc, R, bins):
    spec = dict(doc['spec'], files={k: base64.b64decode(b) for k, b in doc['spec']['files'].items()})
    c = Ctx(spec, mkbase(R, bins, spec))
    rs, v = run_case(R, bins, c, unstrip(doc['case']))
    if digest(rs) != doc['digest']:
        for a, b in zip(doc.get('detail', []), S.detail(rs)):
            print('recorded, now:', [(x, y) for x, y in zip(a, b) if x != y])
    return v, digest(rs)


def plan(prop, tier, seed, bins):
    full = tier == 'thorough'
    out = []
    for r in range(ROUNDS[prop] * (30 if full else 1)):
        out.append((prop, seed * 1000003 + r, NCASE[prop], bins, full and r % 20 == 0, 120))
    return out


REAL = ['the main program nrg: all of c++/ that it contains (symmetries QS and QSZ), Boost.MPI, Boost.Serialization, OpenBLAS/LAPACK, libstdc++ streams and filesystem']
STUB = ['the kernel below the system-call boundary for the scratch directory and standard output (faults, splitting, crash), clock, random numbers, allocator failures', 'the MPI library below Boost.MPI (own scheduler, message queues, process death)',
        'HighFive/HDF5 output (h5raw) is replaced by a stub and not exercised', 'range-v3 headers missing here are replaced by a small shim']
_R = 'a case is one seeded workload (repository inputs with seeded parameter changes) with one seeded fault plan or schedule; it is non-trivial when a fault, delay, switch or changed environment took effect. '
RULE = {
    'C05': _R + 'One failing operation (open, read, write, close, rename, mkdir, ...), a full disk, a crash or a failing allocation anywhere in the calculation, spread evenly over files and operation kinds.',
    'C06': _R + 'One to three interrupted or failing runs, possibly after a complete one, then a healthy run in the same directory.',
    'C07': _R + 'Two to six processes under seeded schedules: who runs, message delays, missed probes, buffered or synchronous sends.',
    'C08': _R + 'Seeded schedules plus process death at any operation, failing message operations, stalls, failing file operations and allocations on any process, and invalid or missing inputs.',
    'C09': _R + 'Two to eight threads under seeded schedules with switches at directives and at single memory accesses, fewer threads than asked for, a diagonalisation that fails, failing allocations and file operations; every memory access of the compiled program is compared for ordering.',
    'C10': _R + 'Interrupted runs with resume=true, then a resumed run.',
    'C11': _R + 'Two or three calculations sharing one scratch directory, interleaved at every file operation, with crashes and failures; single ones next to foreign files.',
    'C12': _R + 'Other clocks, jumps, stalls, random numbers, scratch locations, transfer splits, memory fill patterns, environments, left-over result files.',
}
ASSUME = ['the log on standard output is not a result file', 'a crash is the death of the process: the operating system survives it', 'mpirun ends the job when a process dies or exits abnormally, as real launchers do']
