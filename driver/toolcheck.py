"""Checks T01..T07: the stand-alone tools, real code, on a simulated disk / allocator / clock."""
import base64, hashlib, json, os, random, struct, time
import simdrv as S
import workloads

BIN = {}   # tool -> binary, set by the check before the farm starts


def prepare(w, R, bins):
    """Turn a workload into a runnable spec; earlier steps run on a healthy machine."""
    spec = dict(w)
    spec['bin'] = bins[w['tool']]
    spec['timeout'] = 120
    for t, argv in (w['steps'] or []):
        r = R.run({**spec, 'bin': bins[t], 'argv': argv}, {})
        if r.rc != 0:
            return None
        files = dict(spec['files'])
        for f, b in r.files.items():
            if f != 'stdout.txt':
                files[f] = b
        spec['files'] = files
    return spec


def outputs(spec, base):
    """Names of the result files: what an undisturbed run creates or changes."""
    out = [f for f in base.files if spec['files'].get(f) != base.files[f] and f != 'stdout.txt']
    if spec['result_stdout']:
        out.append('stdout.txt')
    return sorted(out)


def same(spec, base, r, outs):
    return all(r.files.get(f) == base.files[f] for f in outs)


def diff_text(base, r, outs):
    d = []
    for f in outs:
        a, b = base.files[f], r.files.get(f)
        if b is None:
            d.append('%s is missing' % f)
        elif a != b:
            k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            d.append('%s has %d of %d bytes, first difference at byte %d' % (f, len(b), len(a), k))
    return '; '.join(d)


class Ctx:
    def __init__(self, prop, spec, base, rng, R, full):
        self.prop, self.spec, self.base, self.rng, self.R, self.full = prop, spec, base, rng, R, full
        self.outs = outputs(spec, base)
        self.inputs = [f for f in spec['files'] if f not in self.outs]


# ---------------------------------------------------------------- verdicts
def judge(case, spec, base, outs, r):
    """None if the property held, else (class, text)."""
    kind = case['judge']
    if r.timeout or r.rc == S.LIMIT_RC:
        return ('hang', 'the tool does not terminate')
    if r.rc == S.OVERRUN_RC:
        return ('overrun', 'the tool writes past the end of a block of memory')
    bad = [f for f in spec['files'] if f not in outs and case.get('files', {}).get(f, spec['files'][f]) != r.files.get(f)]
    if bad:
        return ('input-changed', 'input file %s was changed or removed' % bad[0])
    if kind == 'inputs-only':
        return None
    if kind == 'must-equal':
        if r.rc != 0:
            return ('fails', 'exit status %s although nothing failed: %s' % (r.rc, r.stderr[:120].decode('utf8', 'replace').strip()))
        if not same(spec, base, r, outs):
            return ('differs', diff_text(base, r, outs))
        return None
    if kind == 'must-fail':
        if r.rc == 0:
            return ('accepted', 'exit status 0')
        if isinstance(r.rc, int) and r.rc < 0 and not (r.rc == -6 and b'terminate called' in r.stderr):
            return ('crashes', 'the damaged file is not rejected, it makes the tool crash (signal %d)' % -r.rc)
        return None
    if r.rc == 0 and not same(spec, base, r, outs):
        return ('silent', 'exit status 0, but ' + diff_text(base, r, outs))
    return None


# ---------------------------------------------------------------- case generators
def wr_faults(j, rng):
    """Every write-side fault that makes sense at this operation."""
    rank, op, kind, act, path, req, ret = j
    if kind == S.K['open-write']:
        return [[rank, op, S.A['err'], S.ERRNO[e]] for e in ('EACCES', 'ENOSPC', 'EMFILE')]
    if kind == S.K['write'] and req > 0:
        n = rng.randrange(req)
        return [[rank, op, S.A['disk-full'], n], [rank, op, S.A['err-file'], S.ERRNO['EIO']], [rank, op, S.A['err'], S.ERRNO['EIO']], [rank, op, S.A['torn-err'], n], [rank, op, S.A['err'], S.ERRNO['EDQUOT']]]
    if kind == S.K['close']:
        return [[rank, op, S.A['close-lost'], S.ERRNO['EIO']]]
    if kind in (S.K['rename'], S.K['sync'], S.K['truncate']):
        return [[rank, op, S.A['err'], S.ERRNO['EIO']]]
    return []


def pick_ops(ops, rng, n):
    """First and last operation of every file always, the rest at random."""
    by = {}
    for j in ops:
        by.setdefault((j[4], j[2]), []).append(j)
    must = []
    for v in by.values():
        must += [v[0], v[-1]]
        if len(v) > 2:
            must.append(rng.choice(v))
    must = list(dict.fromkeys(must))
    rest = [j for j in ops if j not in set(must)]
    rng.shuffle(rest)
    return (must + rest)[:max(n, min(len(must), 2 * n))]


def cases_T01(c, n):
    names = set(c.outs)
    wrote = {j[4] for j in c.base.journal if j[2] == S.K['write']}
    ops = [j for j in c.base.journal if (j[4] in names or j[4] not in c.spec['files']) and j[4] != 'stdout.txt' or (j[4] == 'stdout.txt' and c.spec['result_stdout'])]
    ops = [j for j in ops if j[2] in (S.K['open-write'], S.K['write'], S.K['rename'], S.K['sync'], S.K['truncate']) or (j[2] == S.K['close'] and j[4] in wrote)]
    for j in pick_ops(ops, c.rng, n):
        fs = wr_faults(j, c.rng)
        for f in (fs if c.full else c.rng.sample(fs, min(1, len(fs)))):
            yield dict(judge='exit0-complete', plan=dict(faults=[f]))
    total = sum(j[6] for j in c.base.journal if j[2] == S.K['write'] and j[6] > 0 and j[4] in names)
    for _ in range(n // 4):
        if total and 'stdout.txt' not in names:
            alltot = sum(j[6] for j in c.base.journal if j[2] == S.K['write'] and j[6] > 0)
            yield dict(judge='exit0-complete', plan=dict(quota=c.rng.randrange(alltot)))
    for _ in range(n // 8):
        yield dict(judge='exit0-complete', plan=dict(seed=c.rng.getrandbits(63), p_short_w=300000, p_eintr=100000))


def cases_T02(c, n):
    for _ in range(max(1, n // 8)):
        pl = dict(seed=c.rng.getrandbits(63), p_short_r=c.rng.choice([0, 0, 100000, 600000, 900000]))
        b = c.R.run(c.spec, pl) if pl['p_short_r'] else c.base
        if b.rc != 0:
            continue
        ops = [j for j in b.journal if j[2] == S.K['read'] and j[4] in c.spec['files']]
        for j in pick_ops(ops, c.rng, 8):
            f = [j[0], j[1], c.rng.choice([S.A['err'], S.A['err-file'], S.A['err-sticky']]), S.ERRNO['EIO']]
            yield dict(judge='exit0-complete', plan=dict(pl, faults=[f]))
    for _ in range(max(1, n // 8)):
        yield dict(judge='exit0-complete', plan=dict(seed=c.rng.getrandbits(63), p_short_r=300000, p_eintr=200000))


def cases_T03(c, n):
    for _ in range(n):
        rng = c.rng
        pl = dict(seed=rng.getrandbits(63), p_short_r=rng.choice([0, 50000, 500000, 950000]), p_short_w=rng.choice([0, 50000, 500000, 950000]), p_stall=rng.choice([0, 100000]),
                  clock_base=rng.choice([0, 1700000000, 4102444800, 2**33]) * 10**9, clock_step=rng.choice([0, 1, 10**6, 10**10]), rseed=rng.getrandbits(31))
        if rng.random() < .3:
            pl.update(clock_jump_at=rng.randrange(3), clock_jump=-10**9 * rng.randrange(10**6))
        if rng.random() < .5:
            pl.update(malloc_shuffle=rng.randrange(1, 2**32))
        files = {}
        if rng.random() < .5:
            for o in c.outs:
                if o == 'stdout.txt' or o in c.spec['files']:
                    continue
                m = rng.randrange(4)
                good = c.base.files[o]
                if m == 0:
                    files[o] = good + good[-rng.randrange(1, 200):]
                elif m == 1:
                    files[o] = good[:rng.randrange(len(good) + 1)]
                elif m == 2:
                    files[o] = bytes(rng.getrandbits(8) for _ in range(rng.randrange(5000)))
                else:
                    files[o] = b'1 2 3\n' * rng.randrange(4000)
        yield dict(judge='must-equal', plan=pl, files=files)


GUARD = 1 << 31


def record(spec):
    return 24 if ('-2' in spec['argv'] or '-3' in spec['argv']) else 16


def cases_T04(c, n):
    rng = c.rng
    bins = c.spec['binary']
    for _ in range(n):
        if not bins:
            return
        f = rng.choice(bins)
        data = c.spec['files'][f]
        if c.spec['tool'] == 'unitary':
            k = rng.choice([0, 1, 4, 7, 8, 15, rng.randrange(len(data)), len(data) - 1, len(data) - 8, rng.randrange(len(data))])
            k = max(0, min(k, len(data) - 1))
            yield dict(judge='must-fail', plan=dict(seed=rng.getrandbits(63), p_short_r=rng.choice([0, 400000]), malloc_shuffle=GUARD + rng.randrange(2**31)), files={f: data[:k]}, note='%s cut to %d of %d bytes' % (f, k, len(data)))
            continue
        rec = record(c.spec)
        r = len(data) // rec
        k = rng.choice([rng.randrange(r) * rec, (r - 1) * rec, 0]) + rng.choice([8, 1, rec - 1, rng.randrange(1, rec)])
        if k % rec == 0 or k >= len(data):
            continue
        yield dict(judge='must-fail', plan=dict(seed=rng.getrandbits(63), p_short_r=rng.choice([0, 400000]), malloc_shuffle=GUARD + rng.randrange(2**31)), files={f: data[:k]}, note='%s cut to %d of %d bytes' % (f, k, len(data)))


def cases_T05(c, n):
    m = c.base.malloc_count
    for i in range(n):
        k = c.rng.randrange(m) if i % 3 else min(m - 1, c.rng.randrange(40))
        yield dict(judge='exit0-complete', plan=dict(malloc_fail=k, malloc_sticky=c.rng.randrange(2)))


def crash_fault(j, rng):
    if j[2] == S.K['write'] and j[5] > 1 and rng.random() < .5:
        return [j[0], j[1], S.A['crash-torn'], rng.randrange(1, j[5])]
    return [j[0], j[1], rng.choice([S.A['crash-before'], S.A['crash-after']]), 0]


def cases_T06(c, n):
    ops = [j for j in c.base.journal if j[4] != 'stdout.txt']
    for j in pick_ops(ops, c.rng, n):
        yield dict(judge='crash-rerun', plan=dict(faults=[crash_fault(j, c.rng)]))


def cases_T07(c, n):
    ops = [j for j in c.base.journal if j[2] == S.K['open-read'] and j[6] >= 0]
    for j in ops:
        for e in ('EACCES', 'ENOENT', 'EMFILE', 'EIO'):
            if c.full or c.rng.random() < .5:
                yield dict(judge='exit0-complete', plan=dict(faults=[[j[0], j[1], S.A['err'], S.ERRNO[e]]]))
    for j in c.base.journal:
        if j[2] == S.K['stat'] and j[6] >= 0:
            yield dict(judge='exit0-complete', plan=dict(faults=[[j[0], j[1], S.A['err'], S.ERRNO[c.rng.choice(['EACCES', 'EIO'])]]]))
    for j in pick_ops(c.base.journal, c.rng, n):
        fs = wr_faults(j, c.rng) + [crash_fault(j, c.rng)]
        yield dict(judge='inputs-only', plan=dict(faults=[c.rng.choice(fs)]))


CASES = {k[6:]: v for k, v in list(globals().items()) if k.startswith('cases_')}


# ---------------------------------------------------------------- running one case
def run_case(R, spec, base, outs, case):
    """Returns (list of results, verdict)."""
    files = dict(spec['files'])
    files.update(case.get('files', {}))
    sp = dict(spec, files=files)
    if case['judge'] == 'crash-rerun':
        r = R.run(sp, dict(case['plan'], op_limit=200000))
        if r.timeout:
            return [r], ('hang', 'the tool does not terminate')
        bad = [f for f in spec['files'] if f not in outs and r.files.get(f) != spec['files'][f]]
        if bad:
            return [r], ('input-changed', 'input file %s was changed or removed by the crashed run' % bad[0])
        r2 = R.run(sp, dict(op_limit=200000), keep=True)
        v = None
        o2 = [o for o in outs if o != 'stdout.txt']
        if r2.rc != 0:
            v = ('rerun-fails', 'running the step again after the crash gives exit status %s' % r2.rc)
        elif not same(spec, base, r2, o2):
            v = ('rerun-differs', 'running the step again after the crash: ' + diff_text(base, r2, o2))
        return [r, r2], v
    if case['judge'] == 'chain':
        rs = []
        steps = [list(x) for x in spec['chain']] + [[spec['tool'], spec['argv']]]
        start = {k: v for k, v in spec['files'].items() if k in spec['chain_inputs']}
        for i, (t, argv) in enumerate(steps):
            st = dict(sp, bin=spec['bins'][t], argv=argv, files=start, stdout='stdout.txt' if i == len(steps) - 1 else 'out%d.txt' % i)
            rs.append(R.run(st, dict(case['plan'] if i == case['step'] else {}, op_limit=200000), keep=i > 0))
        r = rs[-1]
        rs = rs[case['step']:]
        v = None
        if any(x.timeout or x.rc == S.LIMIT_RC for x in rs):
            v = ('hang', 'a later step does not terminate')
        elif r.rc == 0 and not same(spec, base, r, outs):
            v = ('torn-accepted', 'the last step accepted what the crash of step %d (%s) left: ' % (case['step'] + 1, ' '.join([steps[case['step']][0]] + steps[case['step']][1])) + diff_text(base, r, outs))
        return rs, v
    r = R.run(sp, dict(case['plan'], op_limit=200000))
    return [r], judge(case, spec, base, outs, r)


def digest(rs):
    return hashlib.sha256('|'.join(r.digest() for r in rs).encode()).hexdigest()


def minimise(R, spec, base, outs, case, verdict, rs):
    """Shrink the fault schedule: make PRNG decisions explicit, drop faults, keep the violation class."""
    cur = json.loads(json.dumps({k: v for k, v in case.items() if k != 'files'}))
    cur['files'] = case.get('files', {})

    def hard(rs):
        return {(j[2], j[4], j[3]) for j in rs[0].journal if j[3] and j[3] not in (S.A['short'], S.A['stall'])}
    want = hard(rs)

    def ok(c):
        try:
            r, v = run_case(R, spec, base, outs, c)
        except S.SimError:
            return False
        return v is not None and v[0] == verdict[0] and hard(r) <= want
    pl = cur['plan']
    if any(pl.get(k) for k in ('p_short_r', 'p_short_w', 'p_eintr', 'p_stall')):
        ex = [[j[0], j[1], j[3], j[5] if j[3] == S.A['stall'] else (j[6] if j[3] == S.A['short'] else (0 if j[3] in (S.A['eintr'],) else -j[6]))] for j in rs[0].journal if j[3] and j[3] != S.A['stall']]
        expl = {(f[0], f[1]): f for f in pl.get('faults', [])}
        ex = [expl.get((f[0], f[1]), f) for f in ex]
        if len(ex) <= S.MAXFAULT:
            t = dict(cur, plan={k: v for k, v in pl.items() if k not in ('p_short_r', 'p_short_w', 'p_eintr', 'p_stall', 'seed')})
            t['plan']['faults'] = ex
            if ok(t):
                cur = t
    for k in ('clock_base', 'clock_step', 'clock_jump', 'clock_jump_at', 'rseed', 'quota', 'malloc_sticky', 'malloc_shuffle'):
        if k in cur['plan']:
            t = dict(cur, plan={a: b for a, b in cur['plan'].items() if a != k})
            if ok(t):
                cur = t
    for o in list(cur['files']):
        if cur['judge'] == 'must-fail':
            break
        t = dict(cur, files={a: b for a, b in cur['files'].items() if a != o})
        if ok(t):
            cur = t
    fs = cur['plan'].get('faults', [])
    step = max(1, len(fs) // 2)
    budget = 200
    while fs and budget > 0:
        i, changed = 0, False
        while i < len(fs) and budget > 0:
            t = dict(cur, plan=dict(cur['plan'], faults=fs[:i] + fs[i + step:]))
            budget -= 1
            if ok(t):
                cur, fs, changed = t, t['plan']['faults'], True
            else:
                i += step
        if step == 1 and not changed:
            break
        step = max(1, step // 2)
    return cur


def signature(prop, spec, case, verdict, rs):
    """What a known finding is identified by: the tool, the operation kind and the file that failed, the outcome."""
    ks = sorted({(S.KIND.get(j[2], '?'), j[4], S.ACT[j[3]]) for j in rs[0].journal if j[3]})
    return '%s|%s|%s|%s' % (spec['tool'], verdict[0], case['judge'], ';'.join('%s %s %s' % k for k in ks[:4]))


def enc_spec(spec):
    d = {k: v for k, v in spec.items() if k not in ('files', 'bin', 'bins')}
    d['files'] = {k: base64.b64encode(v).decode() for k, v in spec['files'].items()}
    return d


def dec_spec(d, bins):
    s = dict(d)
    s['files'] = {k: base64.b64decode(v) for k, v in d['files'].items()}
    s['bin'], s['bins'] = bins[d['tool']], bins
    return s


def job(args):
    """One workload with all its cases, in a worker."""
    prop, tool, wseed, n, full, bins, repo, budget = args
    R = S.runner()
    rng = random.Random('%s/%s/%d' % (prop, tool, wseed))
    st = dict(tool=tool, runs=0, cases=0, fired={}, shapes=set(), viol=[], err=None, sim_ns=0, unusable=0, samples=[], judged={})
    t0 = time.time()
    try:
        w = workloads.GEN[tool](repo, rng)
        spec = prepare(w, R, bins)
        if spec is None:
            st['unusable'] = 1
            return st
        base = R.run(spec, {})
        st['runs'] += 1
        if base.rc != 0:
            st['unusable'] = 1
            return st
        b2 = R.run(spec, {})
        st['runs'] += 1
        if b2.digest() != base.digest():
            raise S.SimError('%s is not deterministic under the simulator' % spec['name'])
        c = Ctx(prop, spec, base, rng, R, full)
        gen = CASES[prop](c, n)
        if prop == 'T06' and w['steps']:
            gen = chain_cases(c, n, w, bins)
        for case in gen:
            if time.time() - t0 > budget:
                break
            rs, v = run_case(R, spec, base, c.outs, case)
            st['runs'] += len(rs)
            st['cases'] += 1
            st['sim_ns'] += sum(r.sim_ns for r in rs)
            st['judged'][case['judge']] = st['judged'].get(case['judge'], 0) + 1
            hit = 0
            for r in rs:
                for k, x in r.fired.items():
                    st['fired'][k] = st['fired'].get(k, 0) + x
                    hit += x
            if case.get('files'):
                k = 'damaged-or-leftover-file'
                st['fired'][k] = st['fired'].get(k, 0) + 1
                hit += 1
            if any(j[2] == S.K['malloc'] and j[3] for j in rs[0].journal):
                st['fired']['alloc-failure'] = st['fired'].get('alloc-failure', 0) + 1
            if hit:
                st['shapes'].add(S.journal_shape(rs[0].journal) + hashlib.sha1(repr(sorted((k, len(x or b'')) for k, x in case.get('files', {}).items())).encode()).hexdigest()[:8])
            if len(st['samples']) < 1 and hit:
                st['samples'].append('%s: %s %s-> exit %s' % (spec['name'], '; '.join(S.fault_text([j[0], j[1], j[3], -j[6] if j[3] in (1, 2, 3, 12) else j[6]], [j]) for j in rs[0].journal[:400] if j[3])[:300] if rs[0].fired else '', case.get('note', '') + ' ', rs[-1].rc))
            if v:
                rs2, v2 = run_case(R, spec, base, c.outs, case)
                if v2 is None or digest(rs2) != digest(rs):
                    raise S.SimError('a violation of %s did not repeat in the same process' % spec['name'])
                sig = signature(prop, spec, case, v, rs)
                if sig in {x['sig'] for x in st['viol']}:
                    continue
                if len(st['viol']) < 6:
                    case = minimise(R, spec, base, c.outs, case, v, rs)
                    rs, v = run_case(R, spec, base, c.outs, case)
                    if v is None:
                        raise S.SimError('a minimised violation of %s did not repeat' % spec['name'])
                    sig = signature(prop, spec, case, v, rs)
                    if sig in {x['sig'] for x in st['viol']}:
                        continue
                    cj = {k: x for k, x in case.items() if k != 'files'}
                    cj['files'] = {k: base64.b64encode(x).decode() for k, x in case.get('files', {}).items()}
                    st['viol'].append(dict(sig=sig, verdict=list(v), digest=digest(rs), case=cj, spec=enc_spec(spec), outs=c.outs,
                                           faults=[S.fault_text([j[0], j[1], j[3], -j[6] if j[3] in (1, 2, 3, 12) else j[6]], [j]) for j in rs[0].journal if j[3]][:20],
                                           name=spec['name']))
    except S.SimError as e:
        st['err'] = str(e)
    except Exception as e:
        import traceback
        st['err'] = 'internal: ' + traceback.format_exc()[-600:]
    return st


def chain_cases(c, n, w, bins):
    """Crash one step of the chain in a fresh directory, then run the later steps on what is left."""
    c.spec['chain'], c.spec['chain_inputs'], c.spec['bins'] = w['steps'], sorted(w['files']), bins
    spec = dict(c.spec, files=w['files'])
    per = max(3, n // len(w['steps']))
    for i, (t, argv) in enumerate(w['steps']):
        b1 = c.R.run(dict(spec, bin=bins[t], argv=argv), {})
        ops = [j for j in b1.journal if j[4] != 'stdout.txt' and j[4] not in w['files']]
        spec['files'] = {**spec['files'], **{k: v for k, v in b1.files.items() if k != 'stdout.txt'}}
        for j in pick_ops(ops, c.rng, per):
            yield dict(judge='chain', step=i, plan=dict(faults=[crash_fault(j, c.rng)]))


def replay(doc, R, bins):
    spec = dec_spec(doc['spec'], bins)
    case = dict(doc['case'])
    case['files'] = {k: base64.b64decode(x) for k, x in case.get('files', {}).items()}
    base = R.run(spec, {})
    rs, v = run_case(R, spec, base, doc['outs'], case)
    return v, digest(rs)


def plan(prop, tier, seed, bins):
    """The jobs of one check: a pure function of property, tier and seed."""
    full = tier == 'thorough'
    cases = {'T01': 20, 'T02': 24, 'T03': 14, 'T04': 14, 'T05': 40, 'T06': 10, 'T07': 8}[prop]
    rounds = {'T01': 80, 'T02': 80, 'T03': 60, 'T04': 300, 'T05': 40, 'T06': 60, 'T07': 150}[prop] * (20 if full else 1)
    tools = [t for t in workloads.TOOLS if prop != 'T04' or t in ('binavg', 'broaden', 'bw', 'mats', 'specmoments', 'unitary')]
    if prop == 'T06':
        tools = tools + ['chain']
    return [(prop, t, seed * 1000003 + r, cases, full, bins, S.REPO, 60) for r in range(rounds) for t in tools]


REAL = ['all command-line tools of /repo/tools that build here (' + ' '.join(workloads.TOOLS) + '), libstdc++, GSL, GMP, LAPACK, stdio']
STUB = ['the kernel below the system-call boundary for scratch paths and standard output (faults, splitting, crash), clock, random numbers, allocator failures', 'HighFive (HDF5 output of unused code paths)', 'h5write is not built (HighFive missing)']


def build(prop):
    import build as B
    return B.tools() if prop == 'T04' else B.alltools()


def minimum(prop):
    return 200


_R = 'a case is one seeded workload (tool, options, generated or repository input files) with one seeded fault plan; it is non-trivial when at least one planned fault took effect in the run. '
RULE = {
    'T01': _R + 'Faults: failing creation, failing/short/torn write, full disk (at an operation or at a total size), failing close, at the first and last operation on every output file and at random others.',
    'T02': _R + 'Faults: one-off and lasting read errors at the first, last and random reads of every input file, after seeded splitting of reads.',
    'T03': _R + 'Faults: seeded splitting of every read and write, clock base, step and jump, stalls, other random numbers, left-over result files (longer, truncated, garbage). Output must be byte-identical.',
    'T04': _R + 'Fault: a binary input cut inside a record at a seeded length, with and without split reads. Exit status must be non-zero.',
    'T05': _R + 'Fault: the k-th allocation, or every allocation from the k-th on, fails.',
    'T06': _R + 'Faults: process crash before, after or inside a write, create, rename or close of a step; then the same step again on a healthy machine, or the later steps of the chain on what is left.',
    'T07': _R + 'Faults: failing open of each input in turn; any write-side fault or crash for the part on inputs left alone.',
}
ASSUME = ['results written to standard output are compared only for tools whose documented result is standard output', 'EINTR is injected only where the exit status may report it: glibc stdio does not retry']
