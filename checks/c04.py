"""C04: output files appear whole or not at all."""
import ctypes, gzip, hashlib, io, os, shutil, signal, subprocess, sys, tempfile, traceback, warnings
import numpy as np
from mc import core, fix

NONE, KILL, KILLAFTER, TORN, FAIL, FULL, SHORTFULL, SHORT, SIGNAL = range(9)
FNAME = ('none', 'kill before', 'kill after', 'partial write and kill', 'fail', 'fail from here on', 'half a write, then fail', 'half a write', 'signal before')
EIO, ENOSPC = 5, 28


def lib(d):
    so = os.path.join(d, 'fstrace.so')
    subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', os.path.join(core.VERIF, 'mc', 'fstrace.c'), '-o', so], check=True)
    f = ctypes.CDLL(so).trace
    f.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_char_p, ctypes.c_int]
    return f


LIB = None
LIBC = ctypes.CDLL(None, use_errno=True)


def traced(fn, d, fault=NONE, at=-1, arg=0):
    """fn() in a child process with one fault; returns ('ok'|'exc'|'killed', ops)."""
    buf = ctypes.create_string_buffer(1 << 18)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 4
        try:
            signal.signal(signal.SIGINT, signal.default_int_handler)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            if LIBC.ptrace(0, 0, None, None) != 0:
                os._exit(9)
            os.kill(os.getpid(), signal.SIGSTOP)
            with core.quiet():
                fn()
            code = 0
        except BaseException:
            code = 3
            if os.environ.get('MC_DEBUG'):
                traceback.print_exc()
        finally:
            os._exit(code)
    st = LIB(pid, d.encode(), fault, at, arg, buf, len(buf))
    ops = []
    for line in buf.value.decode(errors='replace').splitlines():
        k, n, name = line.split(' ', 2)
        ops.append((k, int(n), name))
    if os.WIFSIGNALED(st):
        return 'killed', ops
    code = os.WEXITSTATUS(st)
    if code == 9 or st == -1:
        raise core.MCError('ptrace of a child is not possible here')
    return ('ok' if code == 0 else 'exc'), ops


# ---------------------------------------------------------------- contents
def digest(path):
    """Bytes, and everything that a reader finds in the file (None: not readable)."""
    with open(path, 'rb') as f:
        raw = f.read()
    out = []
    try:
        if raw[:2] == b'\x1f\x8b':
            raw = gzip.decompress(raw)
        if raw[:4] == b'\x89HDF':
            import h5py
            with h5py.File(io.BytesIO(raw), 'r') as fx:
                def visit(name, o):
                    out.append((name, type(o).__name__, sorted((k, repr(v)) for k, v in o.attrs.items())))
                    if isinstance(o, h5py.Dataset):
                        a = o[()]
                        out.append((str(o.dtype), o.shape, np.asarray(a).tobytes() if o.dtype.kind != 'O' else repr(a)))
                fx.visititems(visit)
        else:
            from astropy.io import fits
            if len(raw) % 2880:
                raise OSError('truncated block')
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                warnings.filterwarnings('ignore', category=DeprecationWarning)
                with fits.open(io.BytesIO(raw), checksum=True) as hx:
                    for hdu in hx:
                        out.append([c.image for c in hdu.header.cards if c.keyword not in ('CHECKSUM', 'DATASUM', 'DATE')])      # these have times
                        if hdu.data is not None:
                            out.append(np.asarray(hdu.data).tobytes())
        if not out:
            raise OSError('empty')
        c = hashlib.sha256(repr(out).encode()).hexdigest()
    except Exception as e:
        c = None
    return hashlib.sha256(raw).hexdigest(), c


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = p
    return out


# ---------------------------------------------------------------- writers
def tables(v, n):
    from astropy.table import Table
    z = Table(dict(TARGETID=np.arange(n) + 100 * v, Z=np.linspace(0, 1, n) + v, ZERR=np.ones(n, 'f4'), ZWARN=np.zeros(n, 'i4'), CHI2=np.ones(n, 'f4') * v, COEFF=np.ones((n, 4), 'f4') * (v + .5),
                   FITMETHOD=np.array(['PCA'] * n), NPIXELS=np.arange(n, dtype='i4'), SPECTYPE=np.array(['GALAXY'] * n), SUBTYPE=np.array([''] * n, dtype='U3'), NCOEFF=np.ones(n, 'i2'), DELTACHI2=np.ones(n, 'f4')))
    fm = Table(dict(TARGETID=z['TARGETID'], TARGET_RA=np.linspace(0, 360, n), FIBER=np.arange(n, dtype='i4') + v))
    ex = Table(dict(TARGETID=np.repeat(z['TARGETID'], 2), EXPID=np.arange(2 * n, dtype='i4') + v))
    ts = Table(dict(TARGETID=z['TARGETID'], TSNR2_LRG=np.ones(n, 'f4') * v))
    return z, fm, ex, ts


def scan(v, n, nz):
    from checks import c06
    ids = list(range(n))
    from astropy.table import Table
    s = {t: {ft: dict(redshifts=np.linspace(0, 1, nz), zchi2=np.arange(nz) + t + v, penalty=np.zeros(nz), zcoeff=np.ones((nz, 2 + q)) * v) for q, ft in enumerate(['GALAXY', 'STAR:::A'])} for t in ids}
    rows = [dict(targetid=t, z=.1 * k + v, zerr=.1, zwarn=0, chi2=1. * k, zz=[1., 2.], zzchi2=[3., 4.], coeff=[1., v], fitmethod='PCA', npixels=10, spectype='GALAXY', subtype='', ncoeff=2, znum=k, deltachi2=1.) for t in ids for k in range(2)]
    return s, Table({k: np.array([r[k] for r in rows]) for k in rows[0]})


def template(d):
    from checks.c02 import write_template
    from redrock.templates import Template
    p = d + '/rrtemplate-galaxy.fits'
    if not os.path.exists(p):
        write_template(p, fix.mk_template('GALAXY', '', redshifts=np.linspace(0, .1, 3), nbasis=2, wmin=3000., wmax=5000.))
    with core.quiet():
        return Template(filename=p)


def writers(name, v, big, path, inputs):
    """A call which writes content v to path (all inputs made beforehand)."""
    n = (2 if v == 1 else 5) * (40 if big else 1)
    if name == 'write_zscan':
        from redrock.results import write_zscan
        s, t = scan(v, (2 if v == 1 else 3), 6000 if big else 5)
        return lambda: write_zscan(path, s, t, clobber=True)
    if name == 'write_zscan0':
        from redrock.results import write_zscan
        s, t = scan(v, (2 if v == 1 else 3), 5)
        return lambda: write_zscan(path, s, t)
    z, fm, ex, ts = tables(v, n)
    tm = template(inputs)
    if name == 'desi_zbest':
        from redrock.external.desi import write_zbest
        return lambda: write_zbest(path, z, fm, ex, ts, {('GALAXY', ''): tm}, spec_header=dict(PROD='p%d' % v))
    if name.startswith('bestmodel'):
        from redrock.external.desi import write_bestmodel
        wave = {b: np.linspace(3000, 5000, 30 * (100 if big else 1)) for b in 'brz'}
        mod = {b: np.ones((n, len(w))) * v for b, w in wave.items()}
        return lambda: write_bestmodel(path, z, mod, wave, {('GALAXY', ''): tm})
    if name == 'boss_zbest':
        from redrock.external.boss import write_zbest
        return lambda: write_zbest(path, z, {'GALAXY': '1', 'STAR:::A': str(v)}, {'GALAXY': '2'})
    raise KeyError(name)


EXT = dict(write_zscan='h5', write_zscan0='h5', bestmodel_gz='fits.gz')


def files_of(name):
    return [f'out.{EXT.get(name, "fits")}'] if name not in CMD else CMD[name]


CMD = dict(rrdesi=['details.h5', 'redrock.fits', 'model.fits'], rrboss=['details.h5', 'zbest.fits'])


def command(name, v, out, inputs):
    if name == 'rrdesi':
        from checks import c14
        import redrock.external.desi as D
        b = dict(tmpl='G' if v == 1 else 'GQ')
        o = c14.options(b, dict(), inputs + f'/{v}', [inputs + f'/{v}/in/coadd-0.fits'], out) + ['--mp', '1']
        return lambda: D.rrdesi(options=o)
    from checks import c15
    import redrock.external.boss as B
    o = c15.options(dict(), dict(out='oz'), inputs + f'/{v}', [os.path.join(inputs, str(v), f) for f in sorted(os.listdir(f'{inputs}/{v}')) if f.startswith('spPlate')], out) + ['--mp', '1']
    return lambda: B.rrboss(options=o)


def mk_inputs(name, d):
    for v in (0, 1):
        os.mkdir(f'{d}/{v}')
        if name == 'rrdesi':
            from checks import c14
            c14.prepare(dict(tmpl='G' if v == 1 else 'GQ'), f'{d}/{v}')
            c14.write_inputs([dict(rows=[dict(t=5 + k, e=0) for k in range(3 - v)], bands='br')], True, f'{d}/{v}/in')
        else:
            from checks import c15
            c = dict(plate=3586, mjd=55181 + v, fibers=[1, 2, 3][:3 - v], tmpl='G', npix=40, c0=3.56)
            with core.quiet():
                c15.write(c, f'{d}/{v}')
            c15.prepare(c, f'{d}/{v}')


def fn_of(c, v, out, inputs):
    if c['w'] in CMD:
        return command(c['w'], v, out, inputs)
    return writers(c['w'], v, c.get('big'), os.path.join(out, files_of(c['w'])[0]), inputs)


class Env:
    """References of one writer and set-up of its scratch directories."""
    def __init__(self, c, d):
        self.c, self.d = c, d
        self.inputs = d + '/inputs'
        os.mkdir(self.inputs)
        if c['w'] in CMD:
            mk_inputs(c['w'], self.inputs)
        self.work = d + '/work'              # the same name in every run
        self.out = self.work + '/out'
        self.ref = {}
        self.fn = {}
        for v in (0, 1):
            self.fn[v] = fn_of(c, v, self.out, self.inputs)
        for v in (0, 1, 0, 1):          # twice: headers list the modules which are loaded
            self.reset('none')
            res, ops = traced(self.fn[v], self.work + '/')
            if res != 'ok':
                raise core.Violation('fails', f'{c["w"]} does not complete without any fault')
            t = tree(self.out)
            if sorted(t) != sorted(files_of(c['w'])):
                raise core.Violation('leftover', f'{c["w"]} leaves {sorted(t)}')
            self.ref[v] = {f: digest(p) for f, p in t.items()}
            if any(x[1] is None for x in self.ref[v].values()):
                raise core.Violation('unreadable', f'{c["w"]} writes a file which cannot be read')
            if v == 0:
                shutil.rmtree(d + '/old', ignore_errors=True)
                shutil.copytree(self.out, d + '/old')
        if any(self.ref[0][f][1] == self.ref[1][f][1] for f in self.ref[0]):
            raise core.MCError('the two contents are the same')

    def reset(self, prev):
        shutil.rmtree(self.d + '/work', ignore_errors=True)
        os.mkdir(self.d + '/work')
        if prev == 'old':
            shutil.copytree(self.d + '/old', self.out)
        elif prev == 'stale':            # left by an earlier run which was killed
            shutil.copytree(self.d + '/old', self.out)
            for f in files_of(self.c['w']):
                p = os.path.join(self.out, f)
                with open(p, 'rb') as g:
                    raw = g.read()
                with open(p + '.tmp', 'wb') as g:
                    g.write(raw[:len(raw) * 2 // 3])
        elif prev == 'none':
            os.mkdir(self.out)
        # 'nodir': the output directory does not exist

    def state(self, f):
        """'absent', 'old', 'new' or a description of what else the final name holds."""
        p = os.path.join(self.out, f)
        if not os.path.lexists(p):
            return 'absent'
        g = digest(p)
        for v, name in ((1, 'new'), (0, 'old')):
            r = self.ref[v][f]
            if g[0] == r[0] or (g[1] is not None and g[1] == r[1]):
                return name
        return f'a file of {os.path.getsize(p)} bytes which is {"not readable" if g[1] is None else "neither the old nor the new content"}'


def faults(ops, c, thorough):
    """(fault, at, arg) for a recorded list of operations."""
    cmd = c['w'] in CMD
    for i, (k, n, name) in enumerate(ops):
        yield KILL, i, 0
        yield FULL, i, ENOSPC
        if cmd and not thorough:
            continue
        if i == len(ops) - 1:
            yield KILLAFTER, i, 0
        yield FAIL, i, EIO
        yield SIGNAL, i, int(signal.SIGINT)
        if thorough:
            yield KILLAFTER, i, 0
            yield FAIL, i, ENOSPC
            yield FULL, i, EIO
            yield SIGNAL, i, int(signal.SIGTERM)
        if k == 'write' and n > 1:
            for m in sorted({1, n // 2, n - 1} | ({n // 4, 3 * n // 4, 512 if n > 512 else 1, 4096 if n > 4096 else 1} if thorough else set())):
                if 0 < m < n:
                    yield TORN, i, m
            yield SHORT, i, 0
            yield SHORTFULL, i, ENOSPC


def judge(rec, env, c, prev, f):
    fault, at, arg = f
    env.reset(prev)
    res, ops = traced(env.fn[1], env.work + '/', fault, at, arg)
    what = f'{c["w"]}{" (large)" if c.get("big") else ""}, previous: {prev}, {FNAME[fault]} {arg or ""} at operation {at} {ops[at] if 0 <= at < len(ops) else ""} ({res})'
    before = 'absent' if prev in ('none', 'nodir') else 'old'
    rec.ev()
    rec.trans(len(ops))
    states = {}
    for name in files_of(c['w']):
        s = states[name] = env.state(name)
        if s not in ('new', before):
            raise core.Violation('torn' if s != 'absent' else 'lost', f'{what}: {name} holds {s}')
        if res == 'ok' and s != 'new':
            raise core.Violation('false-success', f'{what}: the writer returned normally but {name} is {s}')
    left = sorted(set(tree(env.out)) - set(files_of(c['w'])))
    if res == 'ok' and [x for x in left if not (prev == 'stale' and x.endswith('.tmp'))]:
        raise core.Violation('leftover', f'{what}: {left} left behind')
    rec.nontrivial(c['w'], c.get('big'), prev, f)
    rec.outcome(c['w'], prev, fault, res, tuple(states.values()))
    rec.state(c['w'], c.get('big'), prev, tuple(sorted(states.items())), tuple((x.split('_tmp')[0], os.path.getsize(os.path.join(env.out, x))) for x in left))
    # a later run is not disturbed
    if (at + fault) % 3 == 0 or c.get('all'):
        r2, _ = traced(env.fn[1], env.work + '/')
        if r2 != 'ok' or any(env.state(x) != 'new' for x in files_of(c['w'])):
            raise core.Violation('rerun', f'{what}: a later run: {r2}, {[(x, env.state(x)) for x in files_of(c["w"])]}')


def run_block(rec, c):
    with tempfile.TemporaryDirectory(prefix='c04') as d:
        env = Env(c, d)
        for prev in c['prev']:
            env.reset(prev)
            res, ops = traced(env.fn[1], env.work + '/')
            if res != 'ok' or [env.state(f) for f in files_of(c['w'])] != ['new'] * len(files_of(c['w'])):
                raise core.Violation('plain', f'{c["w"]}, previous: {prev}: {res}, {[(f, env.state(f)) for f in files_of(c["w"])]}')
            if len(ops) < 4:
                raise core.MCError(f'only {len(ops)} operations seen: {ops}')
            rec.count('operations', len(ops))
            if c.get('replay'):
                judge(rec, env, c, prev, tuple(c['replay']))
                continue
            fs = list(faults(ops, c, c['thorough']))
            for k, f in enumerate(fs):
                if k % c['parts'] == c['part']:
                    with rec.case(dict(c, prev=[prev], replay=list(f))):
                        judge(rec, env, c, prev, f)
            if c['part'] == 0:
                rec.sample(dict(writer=c['w'], previous=prev, operations=len(ops), faults=len(fs), kinds=sorted({o[0] for o in ops}), first=[list(o) for o in ops[:4]], last=[list(o) for o in ops[-2:]]))


def cases(thorough):
    out = []
    P = ('none', 'old', 'stale', 'nodir')
    for w in ('write_zscan', 'write_zscan0', 'desi_zbest', 'bestmodel', 'bestmodel_gz', 'boss_zbest'):
        for big in (False, True):
            if big and w in ('write_zscan0', 'bestmodel_gz'):
                continue
            parts = 4 if not thorough else 8
            for prev in P if not big or thorough else ('old',):
                for part in range(parts):
                    out.append(dict(w=w, big=big, prev=[prev], part=part, parts=parts, thorough=thorough, all=thorough))
    for w in CMD:
        parts = 8 if not thorough else 24
        for prev in ('old',) if not thorough else P:
            for part in range(parts):
                out.append(dict(w=w, prev=[prev], part=part, parts=parts, thorough=thorough, all=thorough))
    return out


def setup():
    """Imports and compilations happen once, before forking."""
    import h5py, fitsio, desispec.io, redrock.results, redrock.external.desi, redrock.external.boss  # noqa
    for w in CMD:
        with tempfile.TemporaryDirectory(prefix='c04') as d:
            os.mkdir(d + '/inputs')
            mk_inputs(w, d + '/inputs')
            os.mkdir(d + '/out')
            try:
                with core.quiet():
                    command(w, 1, d + '/out', d + '/inputs')()
            except Exception:
                pass            # reported by the cases


def make():
    return core.Check('C04', 'fault_enumeration', rule='a fault at a distinct operation of a writer, previous output and way of failing',
                      assumptions=['the operating system keeps what a killed process had already written (no power loss)', 'rename replaces a file at once'],
                      explanation='Every writer, and both commands, run as a traced child process; every system call which changes files below the output directory is a fault point.')


def run(ck):
    global LIB
    setup()
    with tempfile.TemporaryDirectory(prefix='c04lib') as d:
        LIB = lib(d)
        core.pmap(cases(ck.thorough), run_block, ck, timeout=400 if not ck.thorough else 3000, label='c04')


def replay(rec, case):
    global LIB
    setup()
    with tempfile.TemporaryDirectory(prefix='c04lib') as d:
        LIB = lib(d)
        with rec.case(case):
            run_block(rec, case)
