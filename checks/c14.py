"""C14: the DESI command writes complete, mutually consistent products or refuses."""
import itertools, os, subprocess, sys, tempfile, warnings
import numpy as np
from mc import core, fix, files, oracle, fakempi
from checks import c13
from checks.c02 import write_template

TM = dict(G=('GALAXY', '', 3, 'PCA', 'None'), Q=('QSO', 'HIZ', 2, 'PCA', 'Inoue14'), L=('QSO', 'LOZ', 2, 'NMF', 'Calura12'), S=('STAR', 'A', 2, 'PCA', 'None'), T=('STAR', 'F', 1, 'NMF', 'None'))
BIT = dict(UNASSIGNED=0, BROKENFIBER=2, BADPOSITION=9, POORPOSITION=10, BADAMPB=22, BADAMPR=23, BADAMPZ=24)
SKY, LITTLE, UNPLUGGED, BADTGT, NODATA, POOR = 1, 2, 128, 256, 512, 2048
OUT = dict(d='details.h5', o='redrock.fits', m='model.fits')
I = [39627000000000006, 39627000000000005, 11, 2305843009213693952 + 12, 7, 39627000000000004]


def template(k, wave=(2800., 5400.)):
    st, sub, nb, method, igm = TM[k]
    zs = np.linspace(0, 0.25, 9) if st != 'STAR' else np.linspace(-0.002, 0.002, 5)
    return fix.mk_template(st, sub, redshifts=zs, nbasis=nb, method=method, igm=igm, wmin=wave[0], wmax=wave[1], key='c14')


class TRef:
    def __init__(self, k, wave):
        t = template(k, wave)
        self.wave, self.flux, self.igm_model, self.method, self.template_type = np.array(t.wave), np.array(t.flux), t.igm_model, t.method, t.template_type


def prepare(b, d):
    """Input files of a configuration; returns the options naming them."""
    wave = b.get('wave', (2800., 5400.))
    os.mkdir(d + '/t')
    for k in b['tmpl']:
        write_template(f'{d}/t/rrtemplate-{TM[k][0].lower()}-{k}.fits', template(k, wave))
    if b.get('arch'):
        os.mkdir(d + '/a')
        for k in b['arch']:
            fix.mk_archetypes(f'{d}/a/rrarchetype-{TM[k][0].lower()}.fits', TM[k][0], n=3, key=k, wmin=wave[0] - 200, nw=int((wave[1] - wave[0] + 400) / 14), loglam=k == 'S', subtypes=['SFLOWMASS', 'PASSIVE', 'SFLOWMASS'])
        b = dict(b, archpath=d + '/a' if b.get('archdir', True) else f'{d}/a/rrarchetype-{TM[b["arch"][0]][0].lower()}.fits')
    return b


def write_inputs(fs, coadded, d):
    out = []
    os.mkdir(d)
    for k, f in enumerate(fs):
        p = os.path.join(d, f'{"coadd" if coadded else "spectra"}-{k}.fits')
        with core.quiet():
            files.write_desi(p, f['rows'], coadded, bands=f.get('bands', 'brz'), masks=f.get('masks', True), offset=f.get('offset', 0.), order=f.get('order'))
        out.append(p)
    return out


def options(b, v, d, paths, out):
    o = ['-i'] + paths
    if v.get('tlist'):
        o += ['-t'] + sorted((f'{d}/t/{x}' for x in os.listdir(d + '/t')), reverse=v['tlist'] == 'rev')
    else:
        o += ['-t', d + '/t']
    for k in v.get('out', 'dom'):
        o += [dict(d='--details', o='--outfile', m='--model')[k], os.path.join(out, OUT[k])]
    if b.get('archpath'):
        o += ['--archetypes', b['archpath']]
    if v.get('ids') is not None:
        o += ['--targetids', ','.join(str(i) for i in v['ids'])]
    if v.get('first') is not None:
        o += ['--mintarget', str(v['first'])]
    if v.get('n') is not None:
        o += ['--ntargets', str(v['n'])]
    return o + list(b.get('opts', ())) + list(v.get('opts', ()))


class Refused(Exception):
    pass


def call(o, v):
    """Run the command; returns whether the fit was started.  Raises Refused."""
    import redrock.external.desi as D
    worked = []
    orig = getattr(D, 'zfind', None)

    def spy(*a, **k):
        worked.append(1)
        return orig(*a, **k)

    def go(comm=None):
        try:
            with core.quiet():
                D.rrdesi(options=list(o), comm=comm)
        except SystemExit as e:
            if e.code in (0, None):
                raise core.Violation('status', 'exit with status 0')
            raise
    if orig is not None:
        D.zfind = spy
    try:
        if v.get('ranks', 0):
            res, sched = fakempi.run_ranks(v['ranks'], go, allow_exc=True, timeout=200)
            if sched.aborted is not None or any(r[0] == 'exit' for r in res):
                raise Refused(str(sched.aborted))
            for k, r in enumerate(res):
                if r[0] == 'violation':
                    raise core.Violation(*r[1])
                if r[0] == 'exc':
                    if v.get('refuse'):
                        raise Refused(r[1][1])
                    raise core.Violation('rank-' + str(r[1][0]), f'rank {k}: {r[1][1]}')
        else:
            o += ['--mp', str(v.get('mp', 1))]
            try:
                go()
            except SystemExit as e:
                raise Refused(f'exit status {e.code}')
            except core.Violation:
                raise
            except Exception as e:
                if not v.get('refuse'):
                    raise
                raise Refused(repr(e))
    except Refused:
        if worked and not v.get('none'):
            raise core.Violation('late', f'refused after fitting: {o}')
        raise
    finally:
        if orig is not None:
            D.zfind = orig


def cells(x):
    x = np.asarray(x)
    return [str(s).strip() for s in x.astype(str).ravel()] if x.dtype.kind in 'SU' else x


def eq(a, b, rtol=1e-5):
    a, b = cells(a), cells(b)
    if isinstance(a, list) or isinstance(b, list):
        return a == b
    if a.ndim and b.ndim and a.shape != b.shape:       # trailing padding, and a last axis of length one
        a, b = a.reshape(-1), b.reshape(-1)
        n = max(len(a), len(b))
        a, b = (np.concatenate([x, np.zeros(n - len(x))]) for x in (a, b))
    return a.shape == b.shape and core.close(a.astype(float), b.astype(float), rtol, 1e-6)


def read(out, v):
    """All products that were written; checks that they are those requested."""
    from astropy.io import fits
    from astropy.table import Table
    from redrock.results import read_zscan
    want = sorted(OUT[k] for k in v.get('out', 'dom'))
    have = sorted(os.listdir(out)) if os.path.exists(out) else []
    have = [x for x in have if not (x.endswith('.tmp') and '.tmp' in v.get('stale', ()))]
    if have != want:
        raise core.Violation('files', f'files {have}, requested {want}')
    r = {}
    for k in v.get('out', 'dom'):
        p = os.path.join(out, OUT[k])
        if k == 'd':
            with core.quiet():
                r['scan'], r['d'] = read_zscan(p)
        else:
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                with fits.open(p, checksum=True) as h:
                    [x.data for x in h]
            bad = [str(x.message).strip() for x in w if 'verification failed' in str(x.message)]
            if bad:
                raise core.Violation('checksum', f'{OUT[k]}: {bad[0]}')
            with fits.open(p) as h:
                r[k + '.headers'] = {x.name: x.header.copy() for x in h}
                r[k] = Table(np.array(h['REDSHIFTS'].data))
                for x in h[1:]:
                    if x.name != 'REDSHIFTS':
                        r[k + x.name] = np.array(x.data)
    return r


def expected_row(base, v, fs, tid):
    """Best fit of one target after the fiber status of the input is applied."""
    row = {c: base[c] for c in base.colnames} if hasattr(base, 'colnames') else dict(base)
    st = [x for f in fs for x in f['rows'] if x['t'] == tid]
    status = -1
    for x in st:
        status &= x.get('status', 0)
    obj = st[0].get('obj', 'TGT')
    on = {k: bool(status >> b & 1) for k, b in BIT.items()}
    w = int(row['ZWARN'])
    bad = obj not in ('TGT', 'SKY')
    if on['POORPOSITION']:
        w |= POOR
    if on['BROKENFIBER']:
        w |= UNPLUGGED
    if obj == 'SKY':
        w |= SKY
    if bad:
        w |= BADTGT
    if on['BADAMPB'] or on['BADAMPR'] or on['BADAMPZ']:
        w |= LITTLE
    if on['BADPOSITION'] or on['BROKENFIBER'] or on['UNASSIGNED'] or bad:
        w |= NODATA
        row.update(SPECTYPE='GALAXY', SUBTYPE='', Z=0., FITMETHOD='NONE', COEFF=np.zeros_like(row['COEFF']))
        row['_reset'] = True
    row['ZWARN'] = w
    return row


def spectra_of(fs, tid, coadd, lastof=True):
    """{band: (wave, dense R)} of the model."""
    exp = files.desi_expected(fs, tid)
    out = {}
    for band in dict.fromkeys(x[0] for x in exp):
        g = [x for x in exp if x[0] == band]
        if coadd:
            W, f, R = c13.mean(g)
            ok = W > 0          # coadded resolution without weight is zero
        else:
            R, ok = g[-1][4], np.ones(len(g[-1][1]), bool)
        out[band] = (g[0][1], R, ok, len(g))
    return out


def check_products(rec, b, v, r, fs, ids, base):
    outs = v.get('out', 'dom')
    coadd = '--allspec' not in list(b.get('opts', ())) + list(v.get('opts', ()))
    tabs = {}
    for k in outs:
        t = r[k]
        if k == 'd':
            if list(dict.fromkeys(int(x) for x in t['targetid'])) != ids:
                raise core.Violation('details-targets', f'details of {list(dict.fromkeys(int(x) for x in t["targetid"]))}, requested {ids}')
            best = t[t['znum'] == 0]
            if [int(x) for x in best['targetid']] != ids:
                raise core.Violation('details-best', f'best fits of {list(best["targetid"])}')
            if sorted(int(x) for x in r['scan']) != sorted(ids):
                raise core.Violation('details-scan', f'scans of {sorted(r["scan"])}')
            best.rename_columns(best.colnames, [c.upper() if c.islower() else c for c in best.colnames])
            tabs[k] = best
        else:
            if [int(x) for x in t['TARGETID']] != ids:
                raise core.Violation('rows-' + k, f'{OUT[k]} has targets {[int(x) for x in t["TARGETID"]]}, requested {ids}')
            tabs[k] = t
    # one catalogue, whatever the product
    for x, y in itertools.combinations(outs, 2):
        cols = [c for c in tabs[x].colnames if c in tabs[y].colnames]
        need = {'TARGETID', 'Z', 'ZERR', 'ZWARN', 'CHI2', 'COEFF', 'SPECTYPE', 'SUBTYPE', 'DELTACHI2', 'NPIXELS', 'NCOEFF', 'FITMETHOD'}
        if not need <= set(cols) or (x, y) != ('d', 'o') and (x, y) != ('d', 'm') and tabs[x].colnames != tabs[y].colnames:
            raise core.Violation('columns', f'{tabs[x].colnames} in {OUT[x]}, {tabs[y].colnames} in {OUT[y]}')
        for c in cols:
            rec.ev()
            if not eq(tabs[x][c], tabs[y][c], 1e-7 if c == 'Z' else 1e-6):
                raise core.Violation('differ-' + c, f'{c} in {OUT[x]} {list(tabs[x][c])}, in {OUT[y]} {list(tabs[y][c])}')
    # the same rows as in the plain run, with the status of the fibers
    if base is not None:
        for k in outs:
            for q, tid in enumerate(ids):
                i = [int(x) for x in base['TARGETID']].index(tid)
                want = expected_row(base[i], v, fs, tid)
                for c in tabs[k].colnames:
                    if c not in want or c in v.get('skip', ()):
                        continue
                    rec.ev()
                    if not eq(tabs[k][c][q], want[c], v.get('rtol', 1e-5)):
                        raise core.Violation('base-' + c, f'{OUT[k]} target {tid}: {c}={tabs[k][c][q]}, plain run {want[c]}')
    else:
        for tid in ids:
            q = ids.index(tid)
            for k in outs:
                w = int(tabs[k]['ZWARN'][q])
                if w >> 12:
                    raise core.Violation('bits', f'target {tid}: ZWARN {w}')
    # tables of the catalogue
    if 'o' in outs:
        for n in ('FIBERMAP', 'TSNR2'):
            if [int(x) for x in r['o' + n]['TARGETID']] != ids:
                raise core.Violation(n, f'{n} has {list(r["o" + n]["TARGETID"])}, requested {ids}')
        sel = [x for f in fs for x in f['rows'] if x['t'] in ids]
        got = [int(x) for x in r['oEXP_FIBERMAP']['TARGETID']]
        if set(got) != set(ids):
            raise core.Violation('EXP_FIBERMAP', f'{got}')
        for n in ('FIBERMAP', 'EXP_FIBERMAP') if b.get('coadded', True) else ('FIBERMAP',):
            if r['o.headers'][n].get('MCTABLE') != 'input ' + n:
                raise core.Violation('header-' + n, f'keyword of the input {n} is {r["o.headers"][n].get("MCTABLE")!r} in the catalogue')
        for q, tid in enumerate(ids):
            if not np.isclose(r['oFIBERMAP']['TARGET_RA'][q], 10. + (tid % 1000) * 0.01):
                raise core.Violation('FIBERMAP', f'row {q} is not of target {tid}')
    for k in outs:
        for n, x in (('SPGRP', 'test'), ('SURVEY', 'main'), ('PROGRAM', 'dark'), ('HPXPIXEL', 77), ('PETAL', 0), ('HPXNEST', False)):
            for hd in ('PRIMARY', 'REDSHIFTS') if k == 'o' else ('PRIMARY',):
                if k != 'd' and r[k + '.headers'][hd].get(n) != x:
                    raise core.Violation('header', f'{n} of the input is {r[k + ".headers"][hd].get(n)!r} in {OUT[k]} {hd}')
    # models
    if 'm' in outs:
        bands = list(dict.fromkeys(x for f in fs for x in f.get('bands', 'brz')))
        refs = {(TM[k][0], TM[k][1]): TRef(k, b.get('wave', (2800., 5400.))) for k in b['tmpl']}
        have = sorted(k[1:] for k in r if k[0] == 'm' and len(k) > 1 and k[1] != '.')
        if have != sorted(x.upper() + y for x in bands for y in ('_MODEL', '_WAVELENGTH')):
            raise core.Violation('model-bands', f'{have} for bands {bands}')
        arch = None
        for x in bands:
            if r[f'm{x.upper()}_MODEL'].shape[0] != len(ids):
                raise core.Violation('model-rows', f'{r[f"m{x.upper()}_MODEL"].shape} for {len(ids)} targets')
        for q, tid in enumerate(ids):
            sp = spectra_of(fs, tid, coadd)
            row = r['m'][q]
            meth = str(row['FITMETHOD']).strip()
            for x in bands:
                m = r[f'm{x.upper()}_MODEL'][q].astype(float)
                rec.ev()
                if x not in sp:
                    if np.any(m != 0):
                        raise core.Violation('model-nospectrum', f'target {tid} has no spectrum in band {x}, model {m[:4]}')
                    continue
                wave, R, ok, n = sp[x]
                if v.get('post'):
                    ok = ok & ~((5572 <= wave) & (wave <= 5582))
                if not np.array_equal(r[f'm{x.upper()}_WAVELENGTH'], wave):
                    raise core.Violation('model-wave', f'band {x}')
                if n > 1 and not coadd:
                    continue
                if meth == 'NONE' or np.all(np.asarray(row['COEFF']) == 0) and meth != 'ARCH':
                    want = np.zeros(len(wave))
                elif meth == 'ARCH':
                    if arch is None:
                        from redrock.archetypes import All_archetypes
                        with core.quiet():
                            arch = All_archetypes(archetypes_dir=b['archpath'], verbose=False).archetypes
                    want = R @ arch_model(arch, row, sp, x, wave)
                else:
                    rf = refs[(str(row['SPECTYPE']).strip(), str(row['SUBTYPE']).strip())]
                    want = R @ (oracle.basis_on(rf, wave, float(row['Z'])) @ np.atleast_1d(np.asarray(row['COEFF'], float))[:len(rf.flux)])
                if np.abs(m - want)[ok].max(initial=0) > 3e-5 * (1 + np.abs(want).max()):
                    raise core.Violation('model', f'target {tid} band {x} {meth}: model of the file differs from its own best fit by {np.abs(m - want)[ok].max()} (of {np.abs(want).max()})')
    rec.nontrivial(b['tmpl'], b.get('arch'), outs, tuple(ids), v.get('mp'), v.get('ranks'), str(v.get('opts')), str(b.get('opts')))


def arch_model(arch, row, sp, band, wave):
    from checks.c18 import legendre
    a = arch[str(row['SPECTYPE']).strip()]
    labels = [str(x) for x in a._subtype]
    subs = [labels.index(s) for s in str(row['SUBTYPE']).strip().split(';')]
    z = float(row['Z'])
    A = oracle.rebin(np.asarray(a.wave) * (1 + z), a.flux[subs], wave) * np.exp(-oracle.tau('Inoue14', z, wave))[:, None]
    m = A @ np.atleast_1d(np.asarray(row['COEFF'], float))[:len(subs)]
    if 'LEGCOEFF' in row.colnames:
        L = np.asarray(row['LEGCOEFF'], float)
        cams = sorted(sp)
        if L.ndim == 2:
            L = L[cams.index(band)]
        m = m + legendre(wave, len(np.atleast_1d(L))) @ np.atleast_1d(L)
    return m


def clean(fs):
    return [dict(f, rows=[{k: x for k, x in q.items() if k not in ('status', 'obj')} for q in f['rows']]) for f in fs]


_base = {}


def base_of(rec, b):
    """Plain serial run of all targets with all products."""
    k = repr(b) + str(os.getpid())
    if k not in _base:
        _base.clear()
        with tempfile.TemporaryDirectory(prefix='c14') as d:
            b = prepare(b, d)
            fs = clean(b['files'])
            paths = write_inputs(fs, b['coadded'], d + '/in')
            v = dict(out='dom')
            ids = c13.expected_ids(dict(files=fs))
            call(options(b, v, d, paths, d + '/out'), v)
            r = read(d + '/out', v)
            check_products(rec, b, v, r, fs, ids, None)
            _base[k] = r['o']
            rec.ev()
    return _base[k]


def run_variant(rec, b, v):
    fs = v.get('files', b['files'])
    vb = dict(b, **v.get('b', {}))
    with tempfile.TemporaryDirectory(prefix='c14') as d:
        sel = dict(files=fs, ids=v.get('ids'), first=v.get('first'), n=v.get('n'))
        ids = c13.expected_ids(sel)
        if v.get('first') is not None and v['first'] < 0:
            ids = None
        refuse = bool(v.get('refuse')) or ids is None or not ids
        v = dict(v, refuse=refuse, none=ids == [])
        base = None
        if not refuse and not v.get('nobase'):
            base = base_of(rec, b)
        vb = prepare(vb, d)
        if v.get('tweak'):
            v['tweak_done'] = TWEAKS[v['tweak']](vb, v, d)
            if v['tweak'] == 'scan':
                v['opts'] = list(v.get('opts', ())) + ['--chi2-scan', d + '/scan.h5']
            if v['tweak'] == 'priors':
                v['opts'] = list(v.get('opts', ())) + ['--priors', d + '/priors.fits']
        paths = write_inputs(fs, vb['coadded'], d + '/in')
        for f in v.get('post', ()):
            POST[f](paths)
        out = d + '/out'
        if v.get('stale'):
            os.mkdir(out)
            for k in v.get('out', 'dom'):
                for sfx in v['stale']:
                    with open(os.path.join(out, OUT[k]) + sfx, 'wb') as fh:
                        fh.write(b'old' * 3000)
        oarg = out
        if v.get('env'):
            os.environ['C14_DIR'] = d
            oarg = '$C14_DIR/out'
        try:
            call(options(vb, v, d, paths, oarg), v)
        except Refused as e:
            rec.ev()
            if not refuse:
                raise core.Violation('refused', f'{e}')
            if os.path.exists(out) and os.listdir(out) and not v.get('stale'):
                raise core.Violation('refused-files', f'refused but wrote {os.listdir(out)}')
            rec.outcome('refused', v.get('why'))
            rec.nontrivial('refused', str(sorted((k, str(x)) for k, x in v.items())))
            return
        if refuse:
            raise core.Violation('accepted', f'not refused; wrote {sorted(os.listdir(out)) if os.path.exists(out) else []}')
        r = read(out, v)
        check_products(rec, vb, v, r, fs, ids, base)


def tweak_scan(b, v, d):
    """A saved scan of a plain run."""
    paths = write_inputs(b['files'], b['coadded'], d + '/pre')
    call(options(b, dict(out='d'), d, paths, d + '/preout'), {})
    os.rename(d + '/preout/' + OUT['d'], d + '/scan.h5')


def tweak_priors(b, v, d):
    from astropy.table import Table
    ids = v['prior'][0]
    t = Table(dict(TARGETID=np.array(ids, dtype=np.int64), FUNCTION=[v['prior'][1]] * len(ids), Z=np.full(len(ids), v['prior'][2]), SIGMA=np.full(len(ids), v['prior'][3])))
    t.meta['EXTNAME'] = 'PRIORS'
    t.write(d + '/priors.fits')


def tweak_noarch(b, v, d):
    b['archpath'] = d + '/none'


def tweak_emptyarch(b, v, d):
    os.mkdir(d + '/empty')
    b['archpath'] = d + '/empty'


TWEAKS = dict(scan=tweak_scan, priors=tweak_priors, noarch=tweak_noarch, emptyarch=tweak_emptyarch)


def post_sky(paths):
    """Weightless pixels at the sky lines."""
    from astropy.io import fits
    for p in paths:
        with fits.open(p, mode='update') as h:
            for x in 'BRZ':
                if x + '_WAVELENGTH' in h:
                    w = h[x + '_WAVELENGTH'].data
                    k = (5572 <= w) & (w <= 5582) | (9792 <= w) & (w <= 9795)
                    h[x + '_IVAR'].data[:, k] = 0


POST = dict(sky=post_sky)


def run_bin(rec, c):
    """Exit status of the program itself."""
    with tempfile.TemporaryDirectory(prefix='c14') as d:
        b = prepare(dict(tmpl='G', files=[dict(rows=[dict(t=5, e=0), dict(t=6, e=0)])], coadded=True), d)
        paths = write_inputs(b['files'], True, d + '/in')
        o = options(b, c['v'], d, paths, d + '/out')
        env = dict(os.environ, PYTHONPATH=core.REPO + '/py')
        r = subprocess.run([sys.executable, os.path.join(core.REPO, 'bin/rrdesi')] + o, env=env, capture_output=True, text=True, timeout=300, cwd=d)
        rec.ev()
        if (r.returncode != 0) != c['refuse']:
            raise core.Violation('exit', f'status {r.returncode} for {o}: {(r.stdout + r.stderr)[-300:]}')
        if not c['refuse']:
            read(d + '/out', c['v'])
        elif os.path.exists(d + '/out') and os.listdir(d + '/out'):
            raise core.Violation('refused-files', f'{os.listdir(d + "/out")}')
        rec.nontrivial('bin', str(c))


def dispatch(rec, g):
    if g.get('kind') == 'bin':
        with rec.case(g):
            run_bin(rec, g)
        return
    for v in g['variants']:
        with rec.case(dict(b=g['b'], variants=[v])):
            run_variant(rec, g['b'], v)


def make():
    return core.Check('C14', 'exploration',
        rule='option lattice: product subsets x process counts, ordered target selections and ranges, fiber status bits x object types, archetype sub-options, single spectra, several files, restart, priors, stale outputs, refusals; each run of the real command compared with a plain run, its own products with each other and models with recomputed ones',
        assumptions=['synthetic DESI files of up to 6 targets and 3 bands', 'template and archetype files in place of redrock-templates', 'MPI simulated (see C02)', 'GPU options are not exercised'],
        explanation='bounded-exhaustive enumeration of command options on the real command with differential and recomputing oracles')


def run(ck):
    T = ck.thorough
    items = []

    def group(b, variants, chunk=6):
        for k in range(0, len(variants), chunk):
            items.append(dict(b=b, variants=variants[k:k + chunk]))
    R4 = [dict(t=I[0], e=0), dict(t=I[1], e=0, mode='dead'), dict(t=I[2], e=0, mode='flat'), dict(t=I[3], e=0, mode='nan')]
    b4 = dict(files=[dict(rows=R4)], coadded=True, tmpl='GQS')
    outs = ['d', 'o', 'do', 'om', 'dm', 'dom']
    par = [dict(mp=1), dict(mp=2), dict(mp=3), dict(ranks=1), dict(ranks=2), dict(ranks=3), dict(ranks=5)]
    # A: products and processes
    vs = []
    for j, (o, p) in enumerate(itertools.product(outs, par)):
        if T or o == 'dom' or (j % 3 == 0):
            vs.append(dict(p, out=o, env=bool(j % 2)))
    for p in par:
        vs.append(dict(p, out='m', refuse=True, why='nothing requested'))
        if T or p.get('mp') == 1 or p.get('ranks') == 2:
            vs.append(dict(p, out='', refuse=True, why='nothing requested'))
    for s in ([''], ['.tmp'], ['', '.tmp']):
        for o in ('dom', 'd', 'o', 'om'):
            vs.append(dict(out=o, stale=s))
    group(b4, vs)
    # B: selections
    vs = []
    j = 0
    for L in (1, 2, 3, 4):
        for s in itertools.permutations([I[0], I[1], I[3], I[2]], L):
            j += 1
            if not T and L > 2 and j % 4:
                continue
            vs.append(dict(par[j % len(par)], ids=list(s), out=outs[j % 6]))
    for s in ([999], [I[0], 999], [I[0], I[1], 12]):
        for p in ((par[0], par[4]) if not T else par):
            vs.append(dict(p, ids=s, refuse=True, why='missing id'))
    vs += [dict(ids=[I[0], I[0]]), dict(ids=[I[1], I[0], I[1]], mp=2)]
    for a in (None, 0, 1, 2, 3, 4, 5):
        for n in (None, 0, 1, 2, 3, 4, 5):
            if a is None and n is None:
                continue
            j += 1
            vs.append(dict(par[j % len(par)], first=a, n=n, out=outs[j % 6]))
    for p in par:
        for k in (dict(first=1), dict(n=1), dict(first=0, n=2), dict(first=0)):
            if T or p.get('mp') == 1 or p.get('ranks') == 2:
                vs.append(dict(p, ids=[I[0]], refuse=True, why='ids and range', **k))
    group(b4, vs)
    # C: status of the fibers
    bits = sorted(BIT.values()) + [1, 3, 8, 12, 20, 25]
    for tm in ('GQS', 'Q', 'S', 'T', 'LT', 'G'):
        for arch in (None, 'G', 'S'):
            if arch and tm not in ('GQS', 'S'):
                continue
            ids = I[:5] + [100 + k for k in range(20)]
            combos = [(1 << x, 'TGT') for x in bits] + [(0, 'SKY'), (0, 'BAD'), (0, 'NON'), (0, ''), (1 << 2, 'SKY'), (1 << 10 | 1 << 9, 'TGT'), (1 << 10, 'SKY'), (1 << 22 | 1 << 10, 'TGT'), (1 << 0, 'BAD'), (0, 'TGT'), (-2 ** 31 + 4 if False else 1 << 30, 'TGT')]
            n = 4
            for q in range(0, len(combos), n):
                if not T and tm not in ('GQS', 'Q') and (q // n) % 3:
                    continue
                rr = [dict(t=ids[(k * 3 + q) % 5], e=0, status=s, obj=o, mode='dead' if (k + q // n) % 4 == 2 else 'ok') for k, (s, o) in enumerate(combos[q:q + n])]
                b = dict(files=[dict(rows=rr)], coadded=True, tmpl=tm, arch=arch)
                vs = [dict(par[(q // n) % len(par)])]
                if T or q % 8 == 0:
                    vs.append(dict(ids=[x['t'] for x in rr[::-1]][:3], mp=2))
                group(b, vs)
    # uncoadded: status of the exposures
    for k, (s1, s2) in enumerate(itertools.product([0, 1 << 2, 1 << 9, 1 << 10, 1 << 22], repeat=2)):
        if not T and k % 3:
            continue
        rr = [dict(t=I[0], e=0, status=s1), dict(t=I[1], e=0), dict(t=I[0], e=1, status=s2)]
        b = dict(files=[dict(rows=rr)], coadded=False, tmpl='GS', nostatus=True)
        group(b, [dict(nobase=True, mp=1 + k % 2)])
    # E: archetype options
    for bands in ('brz', 'b', 'rb'):
        for arch, adir in (('G', True), ('G', False), ('GQS', True), ('Q', False)):
            for j, (deg, nn, pc, pr) in enumerate(itertools.product((None, 0, 1, 2, 3), (None, 2, 3), (None, 'True', 'False'), (None, 0, -1, 0.5))):
                k = j + len(arch) + len(bands) + adir
                if not T and k % 11:
                    continue
                o = []
                if deg is not None:
                    o += ['--archetype-legendre-degree', str(deg)]
                if nn is not None:
                    o += ['--archetype-nnearest', str(nn)]
                if pc is not None:
                    o += ['--archetype-legendre-percamera', pc]
                if pr is not None:
                    o += ['--archetype-legendre-prior', str(pr)]
                rr = [dict(t=I[0], e=0), dict(t=I[1], e=0, mode=('dead', 'masked')[j % 2]), dict(t=I[2], e=0, mode='ok')]
                b = dict(files=[dict(rows=rr, bands=bands)], coadded=True, tmpl=('GQS', 'GS', 'Q')[j % 3] if arch != 'Q' else 'GQ', arch=arch, archdir=adir, opts=o + (['--nminima', str(1 + j % 3)] if j % 4 else []))
                group(b, [dict(par[1 + (k // 11) % 6], out=outs[(k // 11) % 6])] + ([dict(ids=[I[2], I[1]])] if T or k % 3 == 0 else []))
            for o in (['--archetypes-no-legendre'], ['--archetypes-no-legendre', '--archetype-nnearest', '2'], ['--archetypes-no-legendre', '--archetype-legendre-degree', '3', '--archetype-legendre-prior', '0.2']):
                rr = [dict(t=I[0], e=0), dict(t=I[1], e=0, mode='dead')]
                group(dict(files=[dict(rows=rr, bands=bands)], coadded=True, tmpl='GQS', arch=arch, archdir=adir, opts=o), [dict(ranks=2)])
    bA = dict(b4, arch='G')
    group(bA, [dict(tweak='noarch', refuse=True, why='no archetypes'), dict(tweak='emptyarch', refuse=True, why='empty archetypes'), dict(tweak='noarch', refuse=True, ranks=2, why='no archetypes'), dict(tweak='emptyarch', refuse=True, ranks=2, why='empty archetypes')])
    # F: other options
    def rows(seq, e0=0, modes=('ok',)):
        n = {}
        out = []
        for q, k in enumerate(seq):
            n[k] = n.get(k, -1) + 1
            out.append(dict(t=I[k], e=e0 + n[k], mode=modes[q % len(modes)]))
        return out
    for j, seq in enumerate(itertools.product(range(3), repeat=3)):
        if not T and j % 4:
            continue
        fs = [dict(rows=rows(seq, modes=('ok', 'nan', 'neg')), bands='br')]
        for o in ([], ['--allspec'], ['--cosmics-nsig', '6'], ['--negflux-nsig', '2']):
            if o == ['--negflux-nsig', '2']:
                continue
            b = dict(files=fs, coadded=False, tmpl='GS', opts=o)
            group(b, [dict(par[(j // 4) % len(par)]), dict(par[(j // 4 + 3) % len(par)], ids=[I[seq[-1]]], out='om')])
    for j, (s1, s2) in enumerate(itertools.product(itertools.product(range(3), repeat=2), repeat=2)):
        if not T and j % 7:
            continue
        for cd in (True, False):
            if cd and (s1[0] == s1[1] or s2[0] == s2[1]):
                continue
            for bb in (('br', 'br'), ('b', 'r'), ('br', 'b')):
                fs = [dict(rows=rows(s1), bands=bb[0]), dict(rows=rows(s2, 4), bands=bb[1])]
                group(dict(files=fs, coadded=cd, tmpl='GS'), [dict(par[(j // 7) % len(par)]), dict(ranks=3, out='om')])
    for nm in (1, 2, 4):
        for npts in (None, 5, 20):
            o = ['--nminima', str(nm)] + (['--zminfit-npoints', str(npts)] if npts else [])
            group(dict(b4, opts=o), [dict(mp=2), dict(ranks=2), dict(tlist='fwd'), dict(tlist='rev', ids=[I[0], I[3]]), dict(tweak='scan', skip=('ZERR', 'NCOEFF'), rtol=1e-4, first=0)])
    R3 = [R4[0], R4[3], dict(t=I[4], e=0)]
    for fn, z, s in (('gaussian', 0.1, 0.05), ('tophat', 0.1, 0.1), ('lorentzien', 0.05, 0.02)):
        for who in ([I[0]], [I[0], I[3]], [I[0], I[4]]):
            b = dict(files=[dict(rows=R3)], coadded=True, tmpl='GS')
            rest = [x['t'] for x in R3 if x['t'] not in who]
            # targets without a prior are unaffected
            group(b, [dict(tweak='priors', prior=(who, fn, z, s), ids=rest, mp=1 + len(who) % 2)])
            group(b, [dict(tweak='priors', prior=(who, fn, z, s), nobase=True, ranks=2)])
    # more unmasked pixels than 16 bits can count
    group(dict(files=[dict(rows=[dict(t=I[0], e=k) for k in range(1760)] + [dict(t=I[1], e=0)], bands='br')], coadded=False, tmpl='G', opts=['--allspec', '--nminima', '1', '--zminfit-npoints', '3']), [dict(mp=2, out='do')])
    # extra masking of sky lines
    bs = dict(files=[dict(rows=[dict(t=I[0], e=0, z=0.49), dict(t=I[1], e=0, z=0.55)], offset=1316.)], coadded=True, tmpl='GS', wave=(4000., 6400.))
    group(dict(bs), [dict(post=['sky'], opts=['--no-skymask']), dict(mp=2), dict(post=['sky'])])
    group(dict(bs, opts=['--no-skymask']), [dict(ranks=2)])
    # the program itself
    for v, ref in ((dict(out='dom'), False), (dict(out='m'), True), (dict(out=''), True), (dict(out='o', ids=[5], n=1), True), (dict(out='o', ids=[77]), True), (dict(out='d', ids=[6]), False), (dict(out='o', opts=['--archetypes', '/nonexistent/x']), True),
                   (dict(out='o', opts=['-t', '/nonexistent/rrtemplate-x.fits']), True), (dict(out='o', opts=['--nosuchoption']), True)):
        items.append(dict(kind='bin', v=dict(v, opts=list(v.get('opts', ())) + ['--mp', '1']), refuse=ref))
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    dispatch(rec, case)
