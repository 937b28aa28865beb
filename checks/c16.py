"""C16: a reported fit evaluates to the fitted model."""
import itertools, os, tempfile
import numpy as np
from mc import core, fix, oracle, fakempi

KINDS = {
    'G': dict(spectype='GALAXY', nbasis=3, method='PCA', igm='Inoue14'),
    'N': dict(spectype='GALAXY', nbasis=3, method='NMF', igm='None'),
    'Q': dict(spectype='QSO', subtype='LOZ', nbasis=2, method='PCA', igm='Calura12'),
    'H': dict(spectype='QSO', subtype='HIZ', nbasis=2, method='PCA', igm='Inoue14'),
    'K': dict(spectype='QSO', subtype='', nbasis=2, method='NMF', igm='Kamble20'),
    'A': dict(spectype='STAR', subtype='A', nbasis=1, method='PCA', igm='None'),
    'B': dict(spectype='STAR', subtype='B', nbasis=2, method='NMF', igm='None'),
}


def mk(kind, c, d=None):
    """Template in memory, or written to a file and read back."""
    from redrock.templates import Template
    k = dict(KINDS[kind])
    zr = c['zr']
    if k['spectype'] == 'STAR':
        zr = (-0.002, 0.002)
    zs = np.linspace(zr[0], zr[1], 5)
    wmin = 3600. / (1 + zr[1]) - 60
    wmax = 5100. / (1 + zr[0]) + 60
    t = fix.mk_template(k['spectype'], k.get('subtype', ''), redshifts=zs, nbasis=k['nbasis'], method=k['method'], igm=k['igm'], wmin=wmin, wmax=wmax, dw=12. / (1 + zr[0]), key='c16')
    if c.get('grid') is None:
        return t
    from astropy.io import fits
    n = len(t.wave)
    w = t.wave
    h = fits.ImageHDU(t.flux, name='BASIS_VECTORS')
    if c['grid'] == 'log':
        l0, dl = np.log10(wmin), np.log10(wmax / wmin) / (n - 1)
        h.header['CRVAL1'], h.header['CDELT1'], h.header['LOGLAM'] = l0, dl, 1
        w = 10 ** (l0 + dl * np.arange(n))
    else:
        h.header['CRVAL1'], h.header['CDELT1'], h.header['LOGLAM'] = wmin, w[1] - w[0], 0
    h.header['RRTYPE'], h.header['RRSUBTYP'], h.header['RRMETHOD'], h.header['RRIGM'], h.header['VERSION'] = k['spectype'], k.get('subtype', ''), k['method'], k['igm'], '1'
    p = os.path.join(d, f'rrtemplate-{kind}.fits')
    fits.HDUList([fits.PrimaryHDU(), h, fits.ImageHDU(zs, name='REDSHIFTS')]).writeto(p)
    r = Template(p)
    if not np.allclose(r.wave, w) or not np.allclose(r.flux, t.flux) or r.method != k['method'] or r.igm_model != k['igm'] or not np.allclose(r.redshifts, zs):
        raise core.Violation('file', f'template file read as {r}')
    return r


class Ref:
    """What the templates say independent of the objects under test."""

    def __init__(self, t):
        self.wave, self.flux, self.igm_model, self.method = np.array(t.wave), np.array(t.flux), t.igm_model, t.method
        self.template_type = t.template_type


def upper(row):
    return {k.upper(): row[k] for k in row.colnames}


def check_rows(rec, c, tab, tg, tobj, evals):
    BAD = oracle.ZW.BAD_MINFIT
    refs = {k: Ref(t) for k, t in tobj.items()}
    for t in tg:
        rows = tab[tab['targetid'] == t.id]
        w, f = oracle.stack(t.spectra)
        scale = float(np.sum(w * np.where(w > 0, f, 0) ** 2)) + 1e-300
        for i, row in enumerate(rows):
            rec.ev()
            key = (str(row['spectype']), str(row['subtype']))
            tag = f'target {t.id} row {i} {key} z={row["z"]:.5f}:'
            if key not in refs:
                raise core.Violation('type', f'{tag} no such template')
            r = refs[key]
            nb = len(r.flux)
            co = np.atleast_1d(np.asarray(row['coeff'], float))
            m = evals(t, row)
            if sorted(m) != sorted({s.wavehash for s in t.spectra}):
                raise core.Violation('keys', f'{tag} models for {sorted(m)}')
            z = float(row['z'])
            T = oracle.design(t.spectra, r, z)
            want = T @ co[:nb]
            got = np.concatenate([np.asarray(m[s.wavehash], float) for s in t.spectra])
            if got.shape != want.shape:
                raise core.Violation('shape', f'{tag} model of {got.shape}')
            if w.sum() == 0:
                if np.any(got != 0) or np.any(co != 0):
                    raise core.Violation('nodata', f'{tag} target without data: coefficients {co}, model {got[:5]}')
                continue
            d = np.abs(got - want).max()
            if not d <= 1e-7 * (1 + np.abs(want).max()):
                raise core.Violation('model', f'{tag} evaluated model differs from the coefficients times the absorbed, convolved template by {d}')
            # the coefficients are the best fit at the reported redshift, the chi2 is that of the model
            cc, chi2, cond = oracle.optimum(T, w, f, r.method)
            mine = float(np.sum(w * np.where(w > 0, f - got, 0) ** 2))
            if cond < 1e6 and mine > chi2 + 1e-6 * (scale + chi2):
                raise core.Violation('coeff', f'{tag} chi2 of the evaluated model {mine}, best fit at that redshift {chi2}; coefficients {co}, best {cc}')
            pen = oracle.oii_penalty(r, cc)
            zz, zc = np.asarray(row['zz']), np.asarray(row['zzchi2'])
            k = min(max(int(np.argmin(zc)), 1), len(zz) - 2)
            inside = zz[k - 1] <= z <= zz[k + 1]
            tol = (4 * (zc[k - 1:k + 2].max() - zc[k - 1:k + 2].min()) if inside else 0) + 1e-6 * (scale + chi2)
            if not (bool(row['zwarn'] & BAD) and not np.any(zz == z)) and cond < 1e6 and abs(mine + pen - row['chi2']) > tol:
                raise core.Violation('chi2', f'{tag} reported chi2 {row["chi2"]}, evaluated model {mine} + penalty {pen} (scan around the minimum {zc[k - 1:k + 2]})')
            rec.nontrivial(c['templates'], t.id, i, round(z, 4))


def run_fit(rec, c):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate, eval_model
    from redrock.zfind import zfind
    from astropy.table import Table
    with tempfile.TemporaryDirectory(prefix='c16') as d, core.quiet():
        tm = [mk(k, c, d) for k in c['templates']]
    tobj = {(t.template_type, t.sub_type): t for t in tm}
    tg = [fix.mk_target(10 - k, bands=c['bands'], nspec=c['nspec'], mask=m, key=('c16', k), z=(c['zr'][0] + c['zr'][1]) / 2 if c['zr'][0] < 1 else 0.1, amp=a, coadd=c['coadd'], csr=True, rvary=True)
          for k, (m, a) in enumerate((('none', 1.0), ('some', 0.5), ('all', 1.0), ('band0', 1.0), ('none', -0.3)))]
    for t in tg:
        for s in t.spectra:
            s.Rcsr      # cached
    order = c.get('order', range(len(tg)))
    dt = DistTargetsCopy([tg[i] for i in order])
    with core.quiet():
        scan, tab = zfind(dt, [DistTemplate(t, dt.wavegrids()) for t in tm], nminima=c['nmin'], zminfit_npoints=c['npt'])
    check_rows(rec, c, tab, tg, tobj, lambda t, row: dict(t.eval_model(upper(row), tobj)))
    # all local targets at once, best fits in another order than the targets
    for perm in itertools.islice(itertools.permutations(range(len(tg))), 0, 120, 17):
        b = Table(tab[tab['znum'] == 0])
        b = b[[int(np.where(b['targetid'] == tg[i].id)[0][0]) for i in perm]]
        for n in list(b.colnames):
            b.rename_column(n, n.upper())
        models = dt.eval_models(b, tobj)
        for t, m in zip(dt.local(), models):
            rec.ev()
            row = tab[(tab['targetid'] == t.id) & (tab['znum'] == 0)][0]
            r = Ref(tobj[(str(row['spectype']), str(row['subtype']))])
            want = oracle.design(t.spectra, r, float(row['z'])) @ np.atleast_1d(row['coeff'])[:len(r.flux)]
            got = np.concatenate([np.asarray(m[s.wavehash], float) for s in t.spectra])
            if np.abs(got - want).max() > 1e-7 * (1 + np.abs(want).max()):
                raise core.Violation('batch', f'target {t.id}: eval_models differs from the model of its own row')
    # table evaluation, with and without resolution
    b = Table(tab)
    for n in list(b.colnames):
        b.rename_column(n, n.upper())
    b = b[[q for q in range(len(b)) if np.any(b['COEFF'][q] != 0)]]
    t0 = tg[0]
    for s in t0.spectra[:2]:
        w = np.asarray(s.wave, float)
        Rs = [fix.mk_R(len(w), 1 + q % 3).tocsr() for q in range(len(b))]      # every row has its own resolution
        Ry = [fix.mk_R(len(w), 1 + (q + 1) % 3).tocsr() for q in range(len(b))]
        ev = {'plain': eval_model(b, w, None, tobj), 'R': eval_model(b, w, Rs, tobj), 'Ry': eval_model(b, w, Ry, tobj)}
        ev2 = eval_model(b, {'x': w, 'y': w, 'z': w[:-3]}, {'x': Rs, 'y': Ry, 'z': [r[:-3, :-3] for r in Ry]}, tobj)
        ev3 = eval_model(b, {'x': w, 'y': w[2:]}, None, tobj)
        if sorted(ev2) != ['x', 'y', 'z'] or not np.array_equal(ev2['x'], ev['R']) or not np.array_equal(ev2['y'], ev['Ry']) or not np.array_equal(ev3['x'], ev['plain']):
            raise core.Violation('dict', 'evaluation per camera differs')
        if ev2['z'].shape[1] != len(w) - 3 or ev3['y'].shape[1] != len(w) - 2:
            raise core.Violation('dict', 'evaluation per camera on the wrong grid')
        for q in range(len(b)):
            r = Ref(tobj[(str(b['SPECTYPE'][q]), str(b['SUBTYPE'][q]))])
            base = oracle.basis_on(r, w, float(b['Z'][q])) @ np.atleast_1d(b['COEFF'][q])[:len(r.flux)]
            for how, want in (('plain', base), ('R', Rs[q] @ base), ('Ry', Ry[q] @ base)):
                rec.ev()
                if np.abs(ev[how][q] - want).max() > 1e-5 * (1 + np.abs(want).max()):
                    raise core.Violation('table-' + how, f'row {q}: eval_model differs by {np.abs(ev[how][q] - want).max()}')


def run_unit(rec, c):
    """Template.eval on every unit coefficient vector around the absorption edge."""
    from redrock.templates import Template
    t = mk(c['templates'], c)
    r = Ref(t)
    w = np.arange(3650., 5050., 35.)
    for z in c['z']:
        for i in range(t.nbasis):
            for pad in (0, 3):
                co = np.zeros(t.nbasis + pad)
                co[i] = c['amp']
                co[t.nbasis:] = 7.
                for R in (None, fix.mk_R(len(w), 2).tocsr(), fix.mk_R(len(w), 1)):
                    rec.ev()
                    for zt in (float(z), np.float64(z)):
                        got = t.eval(co, w, zt, R=R)
                        want = oracle.basis_on(r, w, float(zt))[:, i] * c['amp']
                        if R is not None:
                            want = R @ want
                        if got.shape != want.shape or np.abs(got - want).max() > 1e-8 * (1 + np.abs(want).max()):
                            raise core.Violation('eval', f'{c["templates"]} z={z} basis {i} R={R is not None}: differs by {np.abs(got - want).max()}')
            if oracle.tau(r.igm_model, float(z), w).max() > 0:
                rec.nontrivial(c['templates'], z, i)


def run_archunit(rec, c):
    """Archetype.eval on combinations of archetypes, with and without Legendre terms and resolution."""
    from checks import c18
    ax = c18.archetypes(c['q'], c['log'])
    ax = ax[c18.TEMPL[c['q']][0]]
    names = [str(x) for x in ax._subtype]
    w = np.arange(3650., 5050., 35.)
    fl, wv = np.array(ax.flux), np.array(ax.wave)
    for z in c['z']:
        B = oracle.rebin(wv * (1 + z), fl, w) * np.exp(-oracle.tau('Inoue14', z, w))[:, None]
        for pick in [(0,), (3,), (1, 2), (2, 0), (3, 1, 0)]:
            for pad in (0, 2):
                co = np.array([1.3, 0.4, 2.2][:len(pick)] + [5.] * pad)
                for leg in (None, np.zeros(0), np.array([0.7]), np.array([0.3, -1.1, 0.5])):
                    for R in (None, fix.mk_R(len(w), 2).tocsr()):
                        rec.ev()
                        got = ax.eval(';'.join(names[k] for k in pick), co, w, z, R=R, legcoeff=leg)
                        want = B[:, list(pick)] @ co[:len(pick)]
                        if leg is not None and len(leg):
                            want = want + c18.legendre(w, len(leg)) @ leg
                        if R is not None:
                            want = R @ want
                        if np.shape(got) != want.shape or np.abs(got - want).max() > 1e-8 * (1 + np.abs(want).max()):
                            raise core.Violation('arch-eval', f'{pick} z={z} Legendre {leg} R={R is not None}: differs by {np.abs(got - want).max() if np.shape(got) == want.shape else np.shape(got)}')
                        rec.nontrivial('archunit', c['q'], z, pick, None if leg is None else len(leg))


def run_mpi(rec, c):
    """eval_models on distributed targets."""
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    from astropy.table import Table
    tm = [mk(k, c) for k in c['templates']]
    tobj = {(t.template_type, t.sub_type): t for t in tm}

    def mkt():
        return [fix.mk_target(100 - 7 * k, bands='br', mask=('none', 'some', 'all', 'none', 'band0')[k % 5], key=('c16m', k), z=0.1, amp=1. - 0.2 * k, coadd=False, csr=True, rvary=True) for k in range(c['n'])]

    def body(comm):
        with core.quiet():
            dt = DistTargetsCopy(mkt(), comm=comm)
            scan, tab = zfind(dt, [DistTemplate(t, dt.wavegrids(), comm=comm) for t in tm], nminima=2)
            b = None
            if comm.rank == 0:
                b = Table(tab[tab['znum'] == 0])[::-1]
                for n in list(b.colnames):
                    b.rename_column(n, n.upper())
            b = comm.bcast(b, root=0)
            ms = dt.eval_models(b, tobj)
            out = [(t.id, np.concatenate([m[s.wavehash] for s in t.spectra])) for t, m in zip(dt.local(), ms)]
            return out, (b if comm.rank == 0 else None)
    res = run_ranks(body, c['ranks'])
    b = res[0][1]
    tg = {t.id: t for t in mkt()}
    seen = [i for o, _ in res for i, _ in o]
    if sorted(seen) != sorted(tg):
        raise core.Violation('mpi-targets', f'{seen}')
    for o, _ in res:
        for i, m in o:
            rec.ev()
            row = b[b['TARGETID'] == i][0]
            r = Ref(tobj[(str(row['SPECTYPE']), str(row['SUBTYPE']))])
            want = oracle.design(tg[i].spectra, r, float(row['Z'])) @ np.atleast_1d(row['COEFF'])[:len(r.flux)]
            if np.abs(m - want).max() > 1e-7 * (1 + np.abs(want).max()):
                raise core.Violation('mpi-model', f'{c["ranks"]} ranks: model of target {i} differs')
            rec.nontrivial('mpi', c['ranks'], i)


def run_ranks(body, n):
    return [v[1] for v in fakempi.run_ranks(n, body)[0]]


def run_plot(rec, c):
    """The plotted model of every fit is the fitted model."""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from redrock.plotspec import PlotSpec
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    from checks import c18
    tm = [mk(k, c) for k in c['templates']]
    arch = None
    kw = {}
    if c.get('arch'):
        from redrock.archetypes import All_archetypes
        with tempfile.TemporaryDirectory(prefix='c16') as d:
            fix.mk_archetypes(os.path.join(d, 'rrarchetype-g.fits'), c['arch'], loglam=False, wmin=900., nw=400)
            arch = All_archetypes(archetypes_dir=d)
        kw = dict(archetypes=arch.archetypes, per_camera=c['percam'], deg_legendre=2, prior_sigma=0.1 if c['percam'] else None, ncamera=2)
    tg = [fix.mk_target(k + 5, bands='rb', mask=('none', 'some', 'all')[k], key=('c16p', k), z=0.1, coadd=False, csr=True) for k in range(3)]
    dt = DistTargetsCopy(tg)
    with core.quiet():
        scan, tab = zfind(dt, [DistTemplate(t, dt.wavegrids()) for t in tm], nminima=2, **kw)
        p = PlotSpec(tg, {t.full_type: t for t in tm}, scan, tab, archetypes=arch if arch else False)
    tobj = {(t.template_type, t.sub_type): t for t in tm}
    for it, t in enumerate(tg):
        n = int(np.sum(tab['targetid'] == t.id))
        if not any(s.ivar.any() for s in t.spectra):
            n = 0
        for zn in range(n):
            p.itarget, p.znum = it, zn
            with core.quiet():
                p.plot()
            row = tab[(tab['targetid'] == t.id) & (tab['znum'] == zn)][0]
            lines = [l for l in p._ax2.lines if l.get_linestyle() == '-' and l.get_color() == 'k' and l.get_alpha() == 0.8]
            rec.ev()
            if len(lines) != len(t.spectra):
                raise core.Violation('plot-lines', f'{len(lines)} model lines for {len(t.spectra)} spectra')
            m = t.eval_model(upper(row), tobj, archetypes=arch.archetypes if arch else None)
            for s, l in zip(t.spectra, lines):
                y = np.asarray(l.get_ydata(), float)
                ok = s.ivar > 0
                if np.abs(y[ok] - m[s.wavehash][ok]).max() > 1e-6 * (1 + np.abs(m[s.wavehash]).max()):
                    raise core.Violation('plot', f'target {t.id} fit {zn} ({row["spectype"]} z={row["z"]:.4f}): the plotted model is not the fitted model (ratio {np.median(y[ok] / m[s.wavehash][ok]):.4f})')
            rec.nontrivial('plot', t.id, zn)
    plt.close('all')


def run_arch(rec, c):
    from checks import c18
    c18.run_fit(rec, c)


def dispatch(rec, c):
    with rec.case(c):
        dict(fit=run_fit, unit=run_unit, mpi=run_mpi, plot=run_plot, arch=run_arch, archunit=run_archunit)[c['kind']](rec, c)


def make():
    return core.Check('C16', 'exploration',
        rule='every reported row of real fits over all template kinds, absorption models, redshift ranges, wavelength grids, camera orders and masks; every unit coefficient vector around the absorption edge; distributed and table evaluation; plotted models; archetype fits; non-trivial: rows of targets with data, evaluations with absorption',
        assumptions=['the reported chi2 is a parabola minimum: compared within four times the variation of the scan over the three points of the parabola, and only if the parabola fit is not flagged as bad', 'coefficients asserted below condition number 1e6'],
        explanation='bounded-exhaustive enumeration of fits through the real code; each reported row is evaluated and compared with an independent rendering from the template, and with the optimum at the reported redshift')


def run(ck):
    T = ck.thorough
    items = []
    sets = ['G', 'NQ', 'HK', 'QHB', 'ABN', 'GKA', 'BHG']
    i = 0
    for zr in ((0.0, 0.25), (2.1, 2.5), (3.4, 3.9)):
        for s in sets:
            if zr[0] > 1:
                s = ''.join(k for k in s)
            for bands, ns, co in (('br', 1, False), ('zrb', 1, False), ('rb', 2, True), ('rb', 2, False), ('rbz', (2, 1, 3), True)):
                for grid in (None, 'log', 'lin'):
                    i += 1
                    if not T and (i % 5 if grid is None else i % 3):
                        continue
                    items.append(dict(kind='fit', templates=s, zr=zr, bands=bands, nspec=ns, coadd=co, grid=grid, nmin=1 + i % 3, npt=(15, 7, 21)[i % 3], order=[3, 1, 4, 0, 2] if i % 2 else [0, 1, 2, 3, 4]))
    for k in KINDS:
        for zr in ((0.0, 0.3), (1.9, 2.6), (2.6, 3.2), (4.2, 5.6)):
            if KINDS[k]['spectype'] == 'STAR' and zr[0] > 0:
                continue
            zz = np.linspace(zr[0], zr[1], 9 if not T else 41) if KINDS[k]['spectype'] != 'STAR' else np.linspace(-0.002, 0.002, 5)
            for amp in (1.0, -2.5):
                items.append(dict(kind='unit', templates=k, zr=zr, z=[float(z) for z in zz], amp=amp))
    for ranks in (1, 2, 3, 4):
        for n in (1, 3, 5):
            items.append(dict(kind='mpi', templates='GQ', zr=(0.0, 0.25), ranks=ranks, n=n))
    for q in 'GQS':
        for lg in (False, True):
            items.append(dict(kind='archunit', q=q, log=lg, z=[0.0, 0.07, 0.9, 2.3, 2.6]))
    for te, ar, pc in (('G', None, 0), ('QNA', None, 0), ('G', 'GALAXY', 1), ('G', 'GALAXY', 0), ('QG', 'GALAXY', 1), ('QGA', 'QSO', 0)):
        items.append(dict(kind='plot', templates=te, zr=(0.05, 0.25), arch=ar, percam=bool(pc)))
    from checks.c18 import TG
    for j, (deg, pc, pr, nn) in enumerate(itertools.product((0, 1, 2), (True, False), (None, 0.1), (None, 2, 3))):
        for b, ns, te, ar in (('rzb', 1, 'GQ', 'G'), ('zb', (1, 2), 'SG', 'GS'), ('b', 1, 'G', 'G')):
            if T or (j + len(b)) % 2:
                items.append(dict(kind='arch', k='fit', bands=b, nspec=ns, templates=te, arch=ar, deg=deg, percam=pc, prior=pr, nn=nn, nmin=2, targets=[TG[0], TG[2]], loglam=bool(j % 2), narch=4,
                                  **(dict(zr=(2.4, 2.7), igm=('Inoue14', 'Kamble20')[j % 2], wmin=900.) if j % 3 == 0 else {})))
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    dispatch(rec, case)
