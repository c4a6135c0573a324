"""Workloads for the stand-alone tools: a seed gives a command line and its input files."""
import math, os, random, struct

T = 'test/tools/'


def _tree(repo, rel, skip=('ref', 'run', 'mkDOS')):
    root = os.path.join(repo, T + rel)
    files = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in skip]
        for f in fs:
            if f in skip:
                continue
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                files[os.path.relpath(p, root)] = fh.read()
    return files


def _num(rng, x):
    return ('%.*g' % (rng.choice([6, 10, 14, 17]), x))


def grid(rng, n, lo=1e-4, hi=1.0):
    """Symmetric logarithmic-ish mesh without duplicates, ascending."""
    h = max(4, n // 2)
    pos = sorted({lo * (hi / lo) ** (i / (h - 1)) for i in range(h)})
    return [-x for x in reversed(pos)] + pos


def table(rng, n, f, ncol=2, comments=True):
    out = []
    xs = grid(rng, n, 10 ** rng.uniform(-5, -2), rng.choice([1.0, 2.0]))
    for x in xs:
        if comments and rng.random() < 0.02:
            out.append('# %d' % rng.randrange(10**6))
        out.append(' '.join([_num(rng, x)] + [_num(rng, f(x, k)) for k in range(ncol - 1)]))
    return ('\n'.join(out) + '\n').encode()


def plain_table(rng, n, f, ncol=2):
    return table(rng, n, f, ncol, comments=False)


def lorentz(rng):
    g = rng.uniform(0.05, 0.6)
    x0 = rng.uniform(-0.4, 0.4)
    a = rng.uniform(0.2, 2)
    return lambda x, k: a * g / math.pi / ((x - x0) ** 2 + g * g) + 1e-3 * k


def specbin(rng, n, ncol=2):
    xs = grid(rng, n, 1e-5, 1.2)
    out = b''
    for x in xs:
        out += struct.pack('<%dd' % ncol, x, *[rng.uniform(1e-4, 0.1) for _ in range(ncol - 1)])
    return out


def opts(rng, *choices):
    """Each option (a list of arguments) is taken with its probability."""
    out = []
    for p, o in choices:
        if rng.random() < p:
            out += [str(x) for x in o]
    return out


def cols(rng):
    """Complex spectra: two weight columns, and which of them is wanted."""
    return rng.choice([([], 2), ([], 2), ([], 2), (['-2'], 3), (['-3'], 3)])


def spectra(rng, n, nz, one, ncol=2):
    return {'spec.bin': specbin(rng, n, ncol)} if one else {'%d/spec.bin' % (i + 1): specbin(rng, n, ncol) for i in range(nz)}


def matrix_text(rng, n, sym=False):
    m = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    if sym:
        for i in range(n):
            for j in range(i):
                m[i][j] = m[j][i]
    return ('\n'.join(' '.join(_num(rng, x) for x in r) for r in m) + '\n').encode()


def matrix_bin(rng, n, sym=True):
    m = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    for i in range(n):
        for j in range(i):
            m[i][j] = m[j][i]
    return struct.pack('<II', n, n) + b''.join(struct.pack('<%dd' % n, *r) for r in m)


def W(tool, argv, files, result_stdout=False, text=(), binary=(), steps=None, name=''):
    return dict(tool=tool, argv=[str(a) for a in argv], files=files, result_stdout=result_stdout, text=list(text), binary=list(binary), steps=steps, name=name or ' '.join([tool] + [str(a) for a in argv]))


def size(rng, big=400):
    return rng.choice([8, 20, 60, big, big * 2])


def w_integ(repo, rng):
    f = table(rng, size(rng, 300), lorentz(rng))
    T = ['%s' % rng.choice(['-T', '-t']), '%.3f' % rng.uniform(0.01, 0.6)]
    return W('integ', opts(rng, (.8, ['-w'])) + T + rng.choice([[], ['-f'], ['-p'], ['-n'], ['-a'], ['-v'], ['-V'], ['-v', '-f']]) + ['imaw.dat'], {'imaw.dat': f}, True, text=['imaw.dat'])


def w_intavg(repo, rng):
    nz = rng.choice([1, 2, 3])
    n = size(rng)
    files = {}
    for z in range(nz):
        out = ['# comment'] * rng.choice([0, 0, 1, 3])
        t = 1.0 + 0.1 * z
        for i in range(n):
            out.append('%s %s' % (_num(rng, t), _num(rng, rng.uniform(0, 2))))
            t *= rng.uniform(1.01, 1.2)
        files['%d/GT.dat' % (z + 1)] = ('\n'.join(out) + '\n').encode()
    return W('intavg', rng.choice([[], ['-v'], ['-vV']]) + ['GT.dat', nz], files, text=list(files))


def w_tdavg(repo, rng):
    if rng.random() < 0.4:
        return W('tdavg', rng.choice([['-c'], [], ['-vV']]), _tree(repo, 'tdavg/tdavg1'), text=['td.dat', 'td-ref.dat'])
    n = size(rng, 200)

    def td(shift):
        out = ['# comment', '#T <Sz^2> <Q^2> E C F S']
        t = 1e-6 * (1 + shift)
        for i in range(n):
            out.append(' '.join([_num(rng, t)] + [_num(rng, rng.uniform(0, 1)) for _ in range(6)]))
            t *= rng.uniform(1.05, 1.3)
        return ('\n'.join(out) + '\n').encode()
    k = rng.randrange(4)
    if k == 0:
        files = {'td.dat': td(0)}
        return W('tdavg', ['-c'], files, text=list(files))
    if k == 1:
        files = {'in.dat': td(0), 'bare.dat': td(0)}
        return W('tdavg', rng.choice([[], ['-c'], ['-v']]) + ['in.dat', 'bare.dat'], files, text=list(files))
    files = {'td.dat': td(0), 'td-ref.dat': td(0)}
    return W('tdavg', rng.choice([['-c'], [], ['-v']]), files, text=list(files))


def w_mats(repo, rng):
    nz = rng.choice([1, 2])
    c, ncol = cols(rng)
    one = nz == 1 and rng.random() < .5
    files = spectra(rng, size(rng), nz, one, ncol)
    return W('mats', c + opts(rng, (.2, ['-v']), (one, ['-o'])) + ['spec.bin', nz, _num(rng, rng.uniform(0.01, 0.5)), rng.choice([5, 40, 400])], files, binary=list(files))


def w_specmoments(repo, rng):
    nz = rng.choice([1, 2, 3])
    one = nz == 1 and rng.random() < .7
    files = spectra(rng, size(rng), nz, one)
    return W('specmoments', opts(rng, (one, ['-o']), (.2, ['-v']), (.2, ['-l', '1e-3']), (.2, ['-h', '0.8'])) + rng.choice([[], ['-p'], ['-n'], ['-c']]) + ['spec.bin', nz], files, True, binary=list(files))


def w_binavg(repo, rng):
    nz = rng.choice([1, 2, 3])
    c, ncol = cols(rng)
    one = nz == 1 and rng.random() < .6
    files = spectra(rng, size(rng), nz, one, ncol)
    name = 'spec.bin'
    if one and (ncol == 3 or rng.random() < .5):  # the result is always spec.bin; a complex spectrum replaced by its average is not an input any more
        name = 'raw.bin'
        files = {name: files['spec.bin']}
    return W('binavg', c + opts(rng, (one, ['-o']), (.2, ['-v'])) + [name, nz], files, binary=list(files))


def w_bw(repo, rng):
    nz = rng.choice([1, 2])
    one = nz == 1 and rng.random() < .5
    files = spectra(rng, size(rng, 60), nz, one)
    return W('bw', opts(rng, (one, ['-o']), (.15, ['-v']), (.1, ['-V']), (.2, ['-s']), (.2, ['-S']), (.2, ['-p']), (.2, ['-M', '1.5']), (.2, ['-q', '0.8']), (.2, ['-x', '0.05']), (.2, ['-t', '1e-2']), (.2, ['-d', '0.05'])) +
             ['-r', '1.2', '-m', '1e-3', '-n', rng.choice([1, 2, 3])] + ['spec.bin', '0.3', nz], files, binary=list(files))


def w_broaden(repo, rng):
    nz = rng.choice([1, 2])
    one = nz == 1 and rng.random() < .5
    c, ncol = cols(rng)
    files = spectra(rng, size(rng, 60), nz, one, ncol)
    opt = c + rng.choice([[], ['-g'], ['-c'], ['-f', '0.2'], ['-x', '0.2', '-g'], ['-s'], ['-n'], ['-a', '0.2']])
    opt += opts(rng, (.1, ['-v']), (.15, ['-l', '1e-3']), (.15, ['-h', '0.9']), (.1, ['-P']), (.1, ['-N']), (.15, ['-A']), (.15, ['-m', '1e-4']), (.15, ['-M', '3']), (.1, ['-s']), (.1, ['-c']))
    text = []
    if rng.random() < .3:
        files['mesh.dat'] = plain_table(rng, rng.choice([20, 200, 700]), lambda x, k: 0.0)
        opt = opt + ['-L', 'mesh.dat']
        text = ['mesh.dat']
    return W('broaden', opt + ['-r', '1.1'] + (['-o'] if one else []) + ['spec.bin', nz, '0.3', '1e-3'] + opts(rng, (.3, ['0.5'])), files, binary=[x for x in files if x.endswith('bin')], text=text)


def w_diag(repo, rng):
    n = rng.choice([1, 2, 5, 12, 30])
    files = {'mat.dat': matrix_text(rng, n, True)}
    v = rng.choice([['-q'], ['-q'], [], ['-v'], ['-vV']])
    sc = opts(rng, (.3, ['-s', '2.5']))
    m = rng.choice(range(5))
    if m == 4:
        return W('diag', ['-q', '-v'] + sc + ['mat.dat'], files, True, text=['mat.dat'])
    form = [[], ['-t', '-B'], ['-T', '-b'], ['-T', '-B']][m]
    return W('diag', form + v + sc + opts(rng, (m > 0 or .7, ['-o', 'val.dat'])) + ['-O', 'vec.dat', 'mat.dat'], files, text=['mat.dat'])


def w_unitary(repo, rng):
    n = rng.choice([1, 3, 8, 20])
    files = {x: matrix_text(rng, n) for x in ('A.dat', 'B.dat', 'C.dat')}
    o = opts(rng, (.2, ['-t']), (.2, ['-l']), (.2, ['-s', '0.5']), (.2, ['-c', '0.1']))
    if rng.random() < .2:
        return W('unitary', o + ['-V', 'A.dat', 'B.dat', 'C.dat'], files, True, text=list(files))
    if rng.random() < .5:
        files['A.dat'] = matrix_bin(rng, n)
        files['C.dat'] = matrix_bin(rng, n)
        return W('unitary', o + ['-B', rng.choice(['-q', '-v']), '-o', 'res.dat', 'A.dat', 'B.dat', 'C.dat'], files, binary=['A.dat', 'C.dat'], text=['B.dat'])
    return W('unitary', o + rng.choice([['-q'], ['-vV'], ['-b', '-q']]) + ['-o', 'res.dat', 'A.dat', 'B.dat', 'C.dat'], files, text=list(files))


def w_resample(repo, rng):
    f = lorentz(rng)
    files = {'input.dat': plain_table(rng, size(rng), f), 'grid.dat': ('\n'.join(_num(rng, -0.9 + 1.8 * i / 149) for i in range(150)) + '\n').encode()}
    opt = rng.choice([[], ['-e'], ['-p', '12'], ['-e', '-a', '0', '-b', '1'], ['-v'], ['-v', '-e']])
    files['grid.dat'] = plain_table(rng, rng.choice([10, 300]), lambda x, k: 0.0) if '-e' in opt else ('\n'.join('%s 0' % _num(rng, -0.9 + 1.8 * i / 149) for i in range(150)) + '\n').encode()
    return W('resample', opt + ['input.dat', 'grid.dat', 'output.dat'], files, text=['input.dat', 'grid.dat'])


def w_kk(repo, rng):
    f = lorentz(rng)
    data = ('\n'.join('%.17g %.12g' % (x, f(x, 0)) for x in grid(rng, rng.choice([10, 40, 300]))) + '\n').encode()
    if rng.random() < .3:
        data = b'# comment\n' * rng.randrange(1, 4) + data
    if rng.random() < .25:
        w = W('kk', ['-'], {'imaw.dat': data}, True, text=['imaw.dat'])
        w['stdin'] = 'imaw.dat'
        return w
    return W('kk', ['imaw.dat', 'reaw.dat'], {'imaw.dat': data}, text=['imaw.dat'])


def w_hilb(repo, rng):
    m = rng.choice(range(4))
    opt = rng.choice([[], ['-B', '1.5'], ['-s', '0.7']])
    files, text = {}, []
    if rng.random() < .5:
        opt = ['-d', 'DOS.dat']
        files['DOS.dat'] = plain_table(rng, rng.choice([40, 400]), lorentz(rng))
        text.append('DOS.dat')
    opt = opts(rng, (.1, ['-v'])) + opt + opts(rng, (.4, ['-G']), (.15, ['-x', '0.1']), (.15, ['-y', '0.05']))
    out = m < 2 and rng.random() < .4
    if out:
        opt += ['-o', 'out.dat']
    if m == 0:
        return W('hilb', opt + [_num(rng, rng.uniform(0.01, 2)), _num(rng, rng.choice([1e-5, -1e-4, rng.uniform(0.01, 1)]))], files, not out, text=text)
    if m == 1:
        files['points.dat'] = ('\n'.join('%s %s' % (_num(rng, rng.uniform(-2, 2)), _num(rng, rng.choice([1e-6, rng.uniform(0.01, 1)]))) for _ in range(rng.choice([3, 30, 300]))) + '\n').encode()
        return W('hilb', opt + ['points.dat'], files, not out, text=text + ['points.dat'])
    n = rng.choice([10, 60, 400])
    xs = grid(rng, n)
    files['resigma.dat'] = ('\n'.join('%.15g %.15g' % (x, 0.3 * x) for x in xs) + '\n').encode()
    files['imsigma.dat'] = ('\n'.join('%.15g %.15g' % (x, -0.1 - 0.2 * x * x) for x in xs) + '\n').encode()
    return W('hilb', opt + ['resigma.dat', 'imsigma.dat', 'reaw.dat', 'imaw.dat'], files, text=text + ['resigma.dat', 'imsigma.dat'])


def _paramsub(files, rng, **kw):
    """Set keywords of the [param] block."""
    lines = []
    for l in files['param'].decode().split('\n'):
        if l.split('=')[0].strip() in kw:
            continue
        lines.append(l)
        if l.strip() == '[param]':
            lines += ['%s=%s' % x for x in kw.items()]
    files['param'] = '\n'.join(lines).encode()
    return files


def _adaptfiles(repo, rng):
    """Small but real discretisation problems."""
    files = _tree(repo, 'adapt/adapt1')
    if rng.random() < .7:
        f, n = lorentz(rng), rng.choice([30, 120, 400])
        files['Delta.dat'] = ('\n'.join('%s %s' % (_num(rng, x), _num(rng, abs(f(x, 0)) + .01)) for x in grid(rng, n, 1e-3, 1.0)) + '\n').encode()
    return _paramsub(files, rng, adapt=rng.choice(['true', 'false', 'false']), Lambda=rng.choice([2, 2.5, 3]), xmax=rng.choice([4, 6, 12]), outputstep=rng.choice([0.0625, 0.125]), xfine=2, dx_fine='1e-3', dx_fast='1e-2',
                     allowed_error='1e-5', max_subdiv=12, secant_eps='0.5', bandrescale=rng.choice([1, 1, 2]), mMAX=12, Nmax=rng.choice([4, 9]), z=rng.choice(['0.5', '1.0', '0.75']), preccpp=400)


def w_adapt(repo, rng):
    if rng.random() < .12:
        d = rng.choice(['adapt7_xmax', 'adapt4_adapt=false', 'adapt8_outputstep'])
        return W('adapt', [rng.choice(['P', 'N'])], _tree(repo, 'adapt/' + d), text=['param', 'Delta.dat'])
    files = _adaptfiles(repo, rng)
    sign = rng.choice(['P', 'N'])
    if rng.random() < .15:  # the constant hybridisation needs no table
        files.pop('Delta.dat')
        return W('adapt', rng.choice([['--flat', '0.3'], ['--flat=0.3']]) + [sign], files, text=['param'])
    if rng.random() < .3:   # one part of the solution is there already
        f = 'GSOL.dat' if sign == 'P' else 'GSOLNEG.dat'
        files[f] = ('# comment\n' * rng.randrange(2) + '\n'.join('%s %s' % (_num(rng, 1 + 0.125 * i), _num(rng, rng.uniform(.9, 1.1))) for i in range(rng.choice([30, 200, 900]))) + '\n').encode()
        return W('adapt', [sign], _paramsub(files, rng, loadg='true'), text=['param', 'Delta.dat', f])
    return W('adapt', [sign] + rng.choice([[], ['param']]), files, text=['param', 'Delta.dat'])


def w_nrgchain(repo, rng):
    c = rng.choice(['flat', 'adapt', 'adapt', 's', 'sl', 'sl', 'gen', 'gen'])
    mm = rng.choice([20, 40])
    kw = dict(mMAX=mm, Nmax=mm // 2, preccpp=rng.choice([400, 1000]), z=rng.choice(['0.3', '0.5', '1.0']))
    if c == 'flat':
        return W('nrgchain', [], _paramsub(_tree(repo, 'nrgchain/nrgchain12_flat'), rng, **kw), text=['param'])
    if c == 'gen':
        return W('nrgchain', [], _adaptfiles(repo, rng), text=['param', 'Delta.dat'], steps=[['adapt', ['P']], ['adapt', ['N']]], name='adapt P; adapt N; nrgchain')
    files = dict(_tree(repo, 'nrgchain/nrgchain6_Nmax'))
    for x in ('theta.dat', 'xi.dat', 'zeta.dat'):
        files.pop(x, None)
    _paramsub(files, rng, **kw)
    if c == 's':
        return W('nrgchain', ['s'], files, text=['param', 'Delta.dat', 'FSOL.dat', 'FSOLNEG.dat'])
    if c == 'sl':
        return W('nrgchain', ['l'], files, text=['param', 'de_pos.dat', 'de_neg.dat', 'du_pos.dat', 'du_neg.dat'], steps=[['nrgchain', ['s']]], name='nrgchain s; nrgchain l')
    return W('nrgchain', [], files, text=['param', 'Delta.dat', 'FSOL.dat', 'FSOLNEG.dat'])


def w_chain(repo, rng):
    """The whole discretisation chain; only T06 uses it."""
    files = _adaptfiles(repo, rng)
    files['matrix'] = b'{{gammaPolCh[1], coefzeta[1,0], coefxi[1,0]}, {coefzeta[1,1], coefxi[1,1], coefzeta[1,2]}, {coefxi[1,2], coefzeta[1,3], coefxi[1,3]}}\n'
    st = [['adapt', ['P']], ['adapt', ['N']]] + rng.choice([[['nrgchain', []]], [['nrgchain', ['s']], ['nrgchain', ['l']]]])
    return W('matrix', ['matrix'], files, True, steps=st, name='adapt P; adapt N; nrgchain; matrix')


def w_matrix(repo, rng):
    d = rng.choice(['matrix1', 'matrix2_xi', 'matrix3_zeta', 'matrix4_theta', 'matrix5_num', 'matrix6_2ch', 'matrix7_2ch_xi', 'matrix8_2ch_zeta', 'matrix9_2ch_theta'])
    files = _tree(repo, 'matrix/' + d)
    two = '2ch' in d
    return W('matrix', (['-v', '-c2'] if two else []) + ['param', 'matrix'], files, True, text=[x for x in files if x in ('param', 'matrix') or x.endswith('.dat')])


def w_instantiate(repo, rng):
    """A template and a parameter file become the input of the main program."""
    files = {}
    root = os.path.join(repo, 'test/nrginit/nrginit2_generate_template/ref')
    sub = rng.random() < .6
    pre = 'template/' if sub else ''
    for f in os.listdir(root):
        with open(os.path.join(root, f), 'rb') as fh:
            files[pre + f] = fh.read()
    dim = {'-2.1': 1, '-1.2': 2, '0.1': 3, '0.3': 1, '1.2': 2, '2.1': 1}
    for l in files[pre + 'data.in'].decode().split('\n'):
        if l.startswith('op.A_d_'):
            a, b = l.strip()[7:].split('_')
            m = [[rng.choice(['U/2', '%.6f' % rng.uniform(-1, 1), 'delta', 'Sqrt[2]', 'coefzeta[1, 0]']) for _ in range(dim[b])] for _ in range(dim[a])]
            files[pre + l.strip()] = ('{' + ', '.join('{' + ', '.join(r) + '}' for r in m) + '}').encode()
    if sub and rng.random() < .3:  # a stale template in the current directory must not be used
        for x in ('ham_0.1', 'ham_1.2', 'ham_2.1'):
            files[x] = files[pre + x].replace(b'delta', b'2*delta')
        files['data.in'] = files[pre + 'data.in']
    nmax = rng.choice([2, 4, 9])
    par = '[extra]\nU=%s\nGamma=%s\ndelta=%s\n\n[param]\nsymtype=QS\nmodel=SIAM\ndiscretization=Z\nLambda=%s\nz=%s\nNmax=%d\nxmax=%d\nmMAX=%d\nkeep=100\nT=0.001\nops=n_d A_d sigma_d I\n' % (
        _num(rng, rng.uniform(.1, 2)), _num(rng, rng.uniform(.01, .2)), _num(rng, rng.uniform(-.3, .3)), rng.choice(['2.0', '3']), rng.choice(['1', '0.5']), nmax, rng.choice([12, 20]), 2 * nmax + rng.choice([4, 12]))
    steps = None
    if rng.random() < .4:
        a = _adaptfiles(repo, rng)
        files.update(a)
        extra = par.split('[param]')[0]
        lines = [l for l in a['param'].decode().split('\n') if l.split('=')[0].strip() not in ('Nmax', 'mMAX', 'keep', 'T', 'ops', 'symtype', 'model', 'discretization', 'U', 'Gamma', 'delta')]
        k = next(i for i, l in enumerate(lines) if l.strip() == '[param]')
        lines[k + 1:k + 1] = ['symtype=QS', 'model=SIAM', 'discretization=Z', 'Nmax=%d' % nmax, 'mMAX=12' if nmax < 6 else 'mMAX=22', 'keep=100', 'T=0.001', 'ops=n_d A_d sigma_d I']
        par = extra + '\n'.join(l for l in lines if l.strip() != '[extra]' and not l.startswith('['))
        par = par.replace('symtype=QS', '[param]\nsymtype=QS', 1)
        steps = [['adapt', ['P']], ['adapt', ['N']]]
    else:
        par += 'band=flat\nadapt=false\n'
    files['param'] = par.encode()
    opt = rng.choice([[], [], [], ['--generate-temporaries'], ['--generate-temporaries'], ['--wilson-only'], ['--diag-seed-only']])
    if not sub:
        opt = opt + rng.choice([[], ['--template-dir', '.']])
    text = ['param'] + [x for x in files if x.startswith(pre + 'ham') or x.startswith(pre + 'op') or x.endswith('data.in')]
    return W('instantiate', opt, files, '--diag-seed-only' in opt, text=text, steps=steps)


GEN = {k[2:]: v for k, v in list(globals().items()) if k.startswith('w_')}
TOOLS = sorted(x for x in GEN if x != 'chain')
