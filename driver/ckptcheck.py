"""Checks C01..C04: the real checkpoint classes, driven through histories of saves, loads and damage on a simulated disk.
The oracle is a reference model: for every checkpoint name the set of contents it may hold."""
import hashlib, json, random, time
import build as B, simdrv as S
from toolcheck import pick_ops, wr_faults, crash_fault

WRITE_SIDE = (S.K['open-write'], S.K['write'], S.K['close'], S.K['rename'], S.K['unlink'], S.K['sync'], S.K['truncate'], S.K['rmdir'], S.K['link'])


def build(prop):
    return {'ckpt': B.ckpt()}


def minimum(prop):
    return 300


# ---------------------------------------------------------------- histories
KINDS = {'d': ['u', 'r', 'f'], 'c': ['U', 'R']}


def gen_script(rng, nops, p):
    """p: weights of save, load, remove-load, ls, damage."""
    kinds = KINDS[rng.choice('ddc')]
    ns = rng.sample([0, 1, 2, 9, 10, 11, 100, 123456], rng.choice([1, 2, 3]))
    keys = [(k, n) for k in kinds for n in ns]
    rng.shuffle(keys)
    keys = keys[:rng.choice([1, 2, 3, 5])]
    out = ['name %s %d' % k for k in keys]
    for _ in range(nops):
        k = rng.choice(keys)
        c = rng.choices(['save', 'load', 'loadrm', 'ls', 'damage'], p)[0]
        shape = rng.choice([1, 2, 3, 5, 9])
        if c == 'save':
            out.append('save %s %d %d %d' % (k + (rng.getrandbits(40), shape)))
        elif c in ('load', 'loadrm'):
            out.append('%s %s %d %d %d %d' % ((rng.choice(['load', 'load', 'ctor']),) + k + (int(c == 'loadrm'), rng.getrandbits(40), rng.choice([1, 3]))))
        elif c == 'ls':
            out.append('ls')
        else:
            d = rng.choice(['trunc', 'trunc', 'trunc', 'append', 'append', 'fill', 'rm'])
            if d == 'trunc':
                m = rng.randrange(4)
                out.append('trunc %s %d %d %d' % (k + ((1000000, -rng.randrange(1, 40)) if m == 0 else (0, rng.randrange(0, 60)) if m == 1 else (rng.randrange(1000001), rng.randrange(-9, 10)))))
            elif d == 'append':
                out.append('append %s %d %d %d' % (k + (rng.choice([1, 2, 7, 8, rng.randrange(1, 5000)]), rng.randrange(3))))
            elif d == 'fill':
                out.append('fill %s %d %d %d' % (k + (rng.choice([0, 1, 8, 41, rng.randrange(3000)]), rng.randrange(4))))
            else:
                out.append('rm %s %d' % k)
    return out


def readback(script, rng):
    keys = [tuple(l.split()[1:3]) for l in script if l.startswith('name ')]
    return ['name %s %s' % k for k in keys] + ['ls'] + ['load %s %s 0 %d 2' % (k + (rng.getrandbits(40),)) for k in keys]


# ---------------------------------------------------------------- reference model
BAD, ANY = 'bad', 'any'


class Model:
    def __init__(self):
        self.st = {}      # key -> set of digests, None (absent) or BAD (present, damaged)
        self.files = {}   # key -> file name
        self.save_err = self.load_err = self.unexplained = 0
        self.saves = self.loads = 0

    def get(self, k):
        return self.st.setdefault(k, {None})

    def run(self, script, text, exact, crashed, no_left=True):
        """Walk the script along the reported events. exact: no fault interferes, everything must succeed.
        Returns a verdict or None."""
        ev = {}
        for l in text.split('\n'):
            t = l.split()
            if t and t[0].isdigit():
                ev.setdefault(int(t[0]), []).append(t[1:])
        ended = any(l == 'end' for l in text.split('\n'))
        for i, line in enumerate(script):
            c = line.split()
            e = {x[0]: x[1:] for x in ev.get(i, [])}
            if c[0] == 'adopt':
                if 'adopt failed' in text:
                    raise S.SimError('harness: adopt failed')
                continue
            if c[0] == 'ls':
                if 'ls' not in e:
                    if crashed:
                        return None
                    if 'ls-fail' in e and not exact:
                        continue
                    if 'ls-fail' in e:
                        return ('directory-gone', 'the work directory disappeared during the calculation (operation %d)' % i)
                    raise S.SimError('harness: no answer to operation %d: %s' % (i, text[-300:]))
                got = set(e['ls'])
                for k, f in self.files.items():
                    if f in got and self.get(k) == {None}:
                        return ('not-removed', '%s is present, but no completed operation left it there (operation %d)' % (f, i))
                    if f not in got and None not in self.get(k):
                        return ('lost', '%s has disappeared (operation %d)' % (f, i))
                extra = got - set(self.files.values())
                if extra and no_left:
                    return ('left-behind', 'other files in the work directory: %s (operation %d)' % (' '.join(sorted(extra)[:4]), i))
                continue
            k = (c[1], c[2])
            if c[0] == 'name':
                if 'name' not in e:
                    if crashed:
                        return None
                    raise S.SimError('harness: no answer to operation %d: %s' % (i, text[-300:]))
                f = e['name'][2]
                if f in self.files.values() and self.files.get(k) != f:
                    return ('name-clash', 'two different checkpoints share the file name %s' % f)
                if f == 'OUTSIDE':
                    return ('outside', 'checkpoint %s %s lies outside the work directory' % k)
                self.files[k] = f
                continue
            st = self.get(k)
            if c[0] == 'save':
                self.saves += 1
                if 'save' not in e:
                    if 'want' in e:
                        self.st[k] = st | {e['want'][0]}
                    if 'oom' in e:
                        continue
                    if crashed:
                        return None
                    raise S.SimError('harness: no answer to operation %d: %s' % (i, text[-300:]))
                r, h, same = e['save']
                if same != 'same':
                    return ('mutated', 'saving changed the data in memory (operation %d)' % i)
                if r == 'ok':
                    self.st[k] = {h}
                else:
                    self.save_err += 1
                    self.unexplained += 1
                    if exact:
                        return ('save-fails', 'save of %s %s fails although nothing went wrong (operation %d)' % (k + (i,)))
            elif c[0] in ('load', 'ctor'):
                self.loads += 1
                rm = c[3] == '1'
                if 'load' not in e:
                    if rm:
                        self.st[k] = st | {None}
                    if 'oom' in e:
                        continue
                    if crashed:
                        return None
                    raise S.SimError('harness: no answer to operation %d: %s' % (i, text[-300:]))
                r, h, same = e['load']
                if r == 'ok':
                    if h not in st and ANY not in st:
                        what = 'an absent' if st == {None} else 'a damaged' if BAD in st else None
                        return ('loads-absent' if st == {None} else 'loads-damaged' if BAD in st else 'wrong-data', 'load of %s %s succeeds on %s checkpoint (operation %d)' % (k + (what, i)) if what else
                                'load of %s %s returns something that was not stored (operation %d)' % (k + (i,)))
                    self.st[k] = {None} if rm else {h}
                else:
                    self.load_err += 1
                    if same != 'same':
                        return ('load-partial', 'failing load of %s %s changed the data of the caller (operation %d)' % (k + (i,)))
                    self.unexplained += None not in st and BAD not in st
                    if exact and None not in st and BAD not in st:
                        return ('load-fails', 'load of %s %s fails on a complete checkpoint (operation %d)' % (k + (i,)))
                    if rm and not exact:
                        self.st[k] = st | {None}
            else:
                if ['trunc', 'none'] in ev.get(i, []):
                    continue
                if c[0] not in e and not crashed and 'oom' not in e:
                    raise S.SimError('harness: no answer to operation %d: %s' % (i, text[-300:]))
                if c[0] not in e:
                    self.st[k] = st | {None, BAD} | ({ANY} if BAD in st else set())
                    if crashed:
                        return None
                elif e[c[0]][0] == 'failed':
                    self.st[k] = st | {None, BAD} | ({ANY} if BAD in st else set())
                else:
                    # cutting off and adding can cancel out or alter single bytes: such a file may hold anything
                    self.st[k] = {None} if c[0] == 'rm' else {BAD, ANY} if BAD in st and c[0] != 'fill' else {BAD}
        if not ended and not crashed:
            raise S.SimError('harness ended early: ' + text[-300:])
        if crashed and ended:
            for k in self.files:   # the work directory is being removed
                self.st[k] = self.get(k) | {None}
        return None


# ---------------------------------------------------------------- running
def spec_of(script, bins):
    return dict(bin=bins['ckpt'], argv=['script'], files={'script': ('\n'.join(script) + '\n').encode()}, timeout=60)


def run_case(R, bins, case):
    """Returns (results, verdict, facts)."""
    rs = []
    m = Model()
    plan = dict(case['plan'], op_limit=200000)
    r = R.run(spec_of(case['script'], bins), plan)
    rs.append(r)
    facts = {}
    if r.timeout or r.rc == S.LIMIT_RC:
        return rs, ('hang', 'the operations do not terminate'), facts
    crashed = r.rc == S.CRASH_RC or b'oom-exit' in r.stderr or (r.rc != 0 and b'bad_alloc' in r.stderr and 'malloc_fail' in case['plan'])
    text = r.stderr.decode('utf8', 'replace')
    bad_unlink = any(j[2] in (S.K['unlink'], S.K['rmdir']) and j[3] for j in r.journal)
    exact = not any(j[3] and j[3] not in (S.A['short'], S.A['eintr'], S.A['stall']) for j in r.journal)
    if r.rc not in (0, S.CRASH_RC) and not crashed:
        return rs, ('dies', 'the process ends with status %s in the middle of a checkpoint operation: %s' % (r.rc, text[-200:])), facts
    try:
        v = m.run(case['script'], text, exact, crashed, no_left=not bad_unlink)
    finally:
        facts.update(save_err=m.save_err, load_err=m.load_err, saves=m.saves, loads=m.loads)
    if v:
        return rs, v, facts
    if case['judge'] == 'crash' and crashed:
        wd = sorted(d for d in r.dirs if '/' not in d)
        if not wd:
            return rs, None, facts
        if len(wd) > 1:
            return rs, ('stray-directory', 'more than one work directory: %s' % ' '.join(wd)), facts
        m.files = {}
        sp = spec_of(['adopt ' + wd[0]] + case['after'], bins)
        with open(R.dir + '/script', 'wb') as f:
            f.write(sp['files']['script'])
        r2 = R.run(sp, dict(op_limit=200000, rseed=77), keep=True)
        rs.append(r2)
        if r2.rc != 0:
            return rs, ('dies', 'the process reading back after the crash ends with status %s' % r2.rc), facts
        old = {k: set(x) for k, x in m.st.items()}
        v = m.run(['adopt'] + case['after'], r2.stderr.decode('utf8', 'replace'), False, False, no_left=False)
        if v is None:
            # present under its final name => loads
            ls = next((l.split()[2:] for l in r2.stderr.decode('utf8', 'replace').split('\n') if l.split()[1:2] == ['ls']), [])
            for i, line in enumerate(case['after'], 1):
                c = line.split()
                if c[0] == 'load' and ('\n%d load err' % i) in r2.stderr.decode('utf8', 'replace') and m.files[(c[1], c[2])] in ls and BAD not in old.get((c[1], c[2]), ()):
                    v = ('torn', 'after the crash %s is present but does not load' % m.files[(c[1], c[2])])
        return rs, v, facts
    # one-off failures: no more errors than failing operations
    acts = [j for j in r.journal if j[3] and j[3] not in (S.A['short'], S.A['eintr'], S.A['stall'])]
    if acts and case['judge'] == 'one-off':
        if m.unexplained > len(acts):
            return rs, ('spurious', '%d operations fail after %d failing system calls' % (m.unexplained, len(acts))), facts
    return rs, None, facts


def digest(rs):
    return hashlib.sha256('|'.join(r.digest() + hashlib.sha256(r.stderr).hexdigest() for r in rs).encode()).hexdigest()


# ---------------------------------------------------------------- cases
def rd_faults(j, rng):
    if j[2] == S.K['open-read']:
        return [[j[0], j[1], S.A['err'], S.ERRNO[e]] for e in ('EACCES', 'EMFILE', 'EIO')]
    if j[2] == S.K['read']:
        return [[j[0], j[1], S.A[a], S.ERRNO['EIO']] for a in ('err', 'err-file', 'err-sticky')]
    if j[2] in (S.K['close'], S.K['seek']):
        return [[j[0], j[1], S.A['err'], S.ERRNO['EIO']]]
    return []


def own(j):
    return '/' in j[4]   # a file in the work directory


def gen_cases(prop, rng, R, bins, n):
    def base(script, pl):
        r = R.run(spec_of(script, bins), pl)
        if r.rc != 0:
            raise S.SimError('harness fails on a healthy machine: %s' % r.stderr[-300:])
        return r
    split = dict(seed=rng.getrandbits(63), p_short_r=rng.choice([0, 0, 300000, 900000]), p_short_w=rng.choice([0, 0, 300000, 900000]))
    if prop == 'C01':
        script = gen_script(rng, rng.choice([2, 4, 8, 14]), [6, 1, 1, 0, 0])
        b = base(script, split)
        ops = [j for j in b.journal if j[4] not in ('script', 'stdout.txt', '')]
        for j in pick_ops(ops, rng, n):
            fs = [crash_fault(j, rng)]
            if rng.random() < .3:   # an earlier failing operation, then the crash
                e = [x for x in ops if x[1] < j[1]]
                if e:
                    w = wr_faults(rng.choice(e), rng)
                    if w:
                        fs.insert(0, rng.choice(w))
            yield dict(judge='crash', script=script, plan=dict(split, faults=fs), after=readback(script, rng))
    elif prop == 'C02':
        script = gen_script(rng, rng.choice([2, 4, 8, 14]), [6, 3, 1, 2, 0])
        script += readback(script, rng)
        b = base(script, split)
        ops = [j for j in b.journal if own(j) and j[2] in WRITE_SIDE]
        for j in pick_ops(ops, rng, n):
            fs = wr_faults(j, rng) if j[2] not in (S.K['unlink'], S.K['rmdir']) else [[j[0], j[1], S.A['err'], S.ERRNO['EIO']]]
            if not fs:
                continue
            fl = [rng.choice(fs)]
            if rng.random() < .3:
                w = wr_faults(rng.choice(ops), rng)
                fl += [x for x in w[:1] if x[1] != fl[0][1]]
            one = all(f[2] in (S.A['err'], S.A['close-lost'], S.A['torn-err'], S.A['err-file']) for f in fl)
            yield dict(judge='one-off' if one else 'sticky', script=script, plan=dict(split, faults=fl))
        tot = sum(j[6] for j in ops if j[2] == S.K['write'] and j[6] > 0)
        for _ in range(n // 6):
            if tot:
                yield dict(judge='sticky', script=script, plan=dict(split, quota=rng.randrange(tot + 1)))
        for _ in range(n // 4):
            yield dict(judge='crash', script=script, plan=dict(malloc_fail=rng.randrange(b.malloc_count)), after=readback(script, rng))
    elif prop == 'C03':
        script = gen_script(rng, rng.choice([4, 8, 14]), [5, 2, 1, 1, 5])
        script += readback(script, rng)
        yield dict(judge='sticky', script=script, plan=split)
        b = base(script, split)
        ops = [j for j in b.journal if own(j) and j[2] in (S.K['open-read'], S.K['read'], S.K['close'], S.K['seek'])]
        for j in pick_ops(ops, rng, n // 2):
            fs = rd_faults(j, rng)
            if fs:
                f = rng.choice(fs)
                yield dict(judge='one-off' if f[2] in (S.A['err'], S.A['err-file']) else 'sticky', script=script, plan=dict(split, faults=[f]))
        for _ in range(n // 2):
            script = gen_script(rng, rng.choice([3, 6]), [5, 1, 1, 0, 6])
            yield dict(judge='sticky', script=script + readback(script, rng), plan=dict(split, seed=rng.getrandbits(63)))
    else:
        for _ in range(n):
            script = gen_script(rng, rng.choice([6, 12, 25]), [6, 4, 2, 2, 0])
            script += readback(script, rng)
            yield dict(judge='healthy', script=script, plan=dict(seed=rng.getrandbits(63), p_short_r=rng.choice([0, 200000, 900000]), p_short_w=rng.choice([100000, 500000, 950000]),
                                                                 p_stall=rng.choice([0, 100000]), rseed=rng.getrandbits(31), clock_base=rng.getrandbits(62), clock_step=rng.choice([0, 1000, 10**9])))


# ---------------------------------------------------------------- minimisation
def minimise(R, bins, case, verdict):
    cur = json.loads(json.dumps(case))
    budget = [150]

    def ok(c):
        if budget[0] <= 0:
            return False
        budget[0] -= 1
        try:
            _, v, _ = run_case(R, bins, c)
        except S.SimError:
            return False
        return v is not None and v[0] == verdict[0]
    for k in ('p_short_r', 'p_short_w', 'p_eintr', 'p_stall', 'seed', 'quota', 'rseed', 'clock_base', 'clock_step'):
        if k in cur['plan']:
            t = dict(cur, plan={a: b for a, b in cur['plan'].items() if a != k})
            if ok(t):
                cur = t
    fs = cur['plan'].get('faults', [])
    i = 0
    while i < len(fs):
        t = dict(cur, plan=dict(cur['plan'], faults=fs[:i] + fs[i + 1:]))
        if ok(t):
            cur, fs = t, t['plan']['faults']
        else:
            i += 1
    # drop script lines; a fault is tied to an operation number, so it is moved along over the operations of the dropped line
    i = len(cur['script']) - 1
    while i >= 0 and budget[0] > 0:
        l = cur['script'][i]
        if not l.startswith('name '):
            t = dict(cur, script=cur['script'][:i] + cur['script'][i + 1:])
            if ok(t):
                cur = t
            elif fs:
                for d in (2, 3, 4, 5, 6, 7, 8):
                    t2 = dict(t, plan=dict(t['plan'], faults=[[f[0], f[1] - d, f[2], f[3]] for f in fs]))
                    if all(f[1] >= 0 for f in t2['plan']['faults']) and ok(t2):
                        cur, fs = t2, t2['plan']['faults']
                        break
        i -= 1
    return cur


def signature(case, v, rs, wd=None):
    wds = [d for r in rs for d in r.dirs]
    ks = sorted({(S.KIND.get(j[2], '?'), j[4].split('/')[-1].rstrip('0123456789'), S.ACT[j[3]]) for j in rs[0].journal if j[3] and j[3] not in (S.A['short'], S.A['stall'])})
    dmg = sorted({l.split()[0] for l in case['script'] if l.split()[0] in ('trunc', 'append', 'fill', 'rm')}) if case['judge'] != 'crash' else []
    kinds = sorted({l.split()[1] for l in case['script'] if l.split()[0] in ('save',)})
    return 'ckpt|%s|%s|%s|%s' % (v[0], ','.join(kinds), ','.join(dmg), ';'.join('%s %s %s' % k for k in ks[:4]))


def job(args):
    prop, wseed, n, bins, budget = args
    R = S.runner()
    rng = random.Random('%s/%d' % (prop, wseed))
    st = dict(tool='ckpt', runs=0, cases=0, fired={}, shapes=set(), viol=[], err=None, sim_ns=0, unusable=0, samples=[], judged={}, extra={})
    t0 = time.time()
    try:
        first = True
        for case in gen_cases(prop, rng, R, bins, n):
            if time.time() - t0 > budget:
                break
            rs, v, facts = run_case(R, bins, case)
            if first:
                first = False
                rs2, _, _ = run_case(R, bins, case)
                st['runs'] += len(rs2)
                if digest(rs2) != digest(rs):
                    raise S.SimError('the checkpoint harness is not deterministic under the simulator')
            st['runs'] += len(rs)
            st['cases'] += 1
            st['sim_ns'] += sum(r.sim_ns for r in rs)
            st['judged'][case['judge']] = st['judged'].get(case['judge'], 0) + 1
            for k, x in facts.items():
                st['extra']['model_' + k] = st['extra'].get('model_' + k, 0) + x
            hit = 0
            for r in rs:
                for k, x in r.fired.items():
                    st['fired'][k] = st['fired'].get(k, 0) + x
                    hit += x
            for l in case['script']:
                w = l.split()[0]
                if w in ('trunc', 'append', 'fill', 'rm'):
                    st['fired']['damage-' + w] = st['fired'].get('damage-' + w, 0) + 1
                    hit += 1
            if case['plan'].get('malloc_fail') is not None:
                st['fired']['alloc-failure'] = st['fired'].get('alloc-failure', 0) + 1
                hit += 1
            if hit:
                st['shapes'].add(S.journal_shape(rs[0].journal) + hashlib.sha1('\n'.join(case['script']).encode()).hexdigest()[:8])
            if not st['samples'] and hit:
                st['samples'].append('%s -> %s' % (' | '.join(case['script'][:12])[:300], '; '.join(S.fault_text([j[0], j[1], j[3], abs(j[6])], [j]) for j in rs[0].journal if j[3])[:200]))
            if v:
                rs2, v2, _ = run_case(R, bins, case)
                if v2 is None or digest(rs2) != digest(rs):
                    raise S.SimError('a violation did not repeat in the same process')
                if len(st['viol']) >= 4:
                    continue
                case = minimise(R, bins, case, v)
                rs, v, _ = run_case(R, bins, case)
                if v is None:
                    raise S.SimError('a minimised violation did not repeat')
                sig = signature(case, v, rs)
                if sig in {x['sig'] for x in st['viol']}:
                    continue
                st['viol'].append(dict(sig=sig, verdict=list(v), digest=digest(rs), case=case, faults=['script: ' + ' | '.join(case['script'])] + [S.fault_text([j[0], j[1], j[3], abs(j[6])], [j]) for j in rs[0].journal if j[3]][:20], name='checkpoint history'))
    except S.SimError as e:
        st['err'] = str(e)
    except Exception:
        import traceback
        st['err'] = 'internal: ' + traceback.format_exc()[-900:]
    return st


def replay(doc, R, bins):
    rs, v, _ = run_case(R, bins, doc['case'])
    return v, digest(rs)


def plan(prop, tier, seed, bins):
    full = tier == 'thorough'
    n, rounds = {'C01': (30, 1000), 'C02': (30, 1000), 'C03': (30, 1000), 'C04': (30, 1200)}[prop]
    return [(prop, seed * 1000003 + r, n, bins, 60) for r in range(rounds * (10 if full else 1))]


REAL = ['DiagInfo and DensMatElements save/load, Workdir, Params (real headers), Boost.Serialization, libstdc++ streams and filesystem']
STUB = ['the kernel below the system-call boundary for scratch paths (faults, splitting, crash), clock, random numbers, allocator failures', 'the calculation around the checkpoints: a script of operations']
_R = 'a case is one seeded history of operations with one seeded fault plan; it is non-trivial when a fault or damage took effect. '
RULE = {'C01': _R + 'The process dies before, after or inside any system call of a save or load; a second process adopts the directory, lists it and loads everything; a reference model says what each name may hold.',
        'C02': _R + 'One or two failing write-side system calls, a full disk or a failing allocation; the model is advanced by what each operation reports.',
        'C03': _R + 'Checkpoints truncated at any length, extended, replaced by something else or removed, and failing reads; a load must fail and leave its target alone, or return exactly what was stored.',
        'C04': _R + 'Histories on a healthy machine with split transfers; every load must return the stored bits and every listing the expected names.'}
ASSUME = ['a crash is the death of the process: the operating system survives it and keeps completed writes']
