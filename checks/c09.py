"""C09: each scan value is the weighted least-squares optimum."""
import itertools
import numpy as np
from mc import core, fix, oracle

HUGE = 9999999.0
CONDMAX = 1e6


def templ(nb, method, kind='QSO', deg=None, igm='None', zs=(0.0, 0.02, 0.05), wmin=3500., wmax=5200.):
    t = fix.mk_template(kind, nbasis=nb, method=method, igm=igm, redshifts=list(zs), wmin=wmin, wmax=wmax, dw=7., key='c09')
    return t


def degenerate(nb, how, method, kind='QSO'):
    from redrock.templates import Template
    t = templ(nb, method, kind)
    f = np.array(t.flux)
    if how == 'same':
        f[1] = f[0]
    elif how == 'zero':
        f[-1] = 0
    elif how == 'combo':
        f[2] = f[0] + f[1]
    return Template(spectype=kind, subtype='', redshifts=t.redshifts, wave=t.wave, flux=f, method=method, igm_model='None')


def scan(target, template):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zscan import calc_zchi2_targets
    dt = DistTargetsCopy([target])
    r = calc_zchi2_targets(dt, [DistTemplate(template, dt.wavegrids())])
    return r[target.id][template.full_type]


def mk_spec(wave, flux, ivar, width=0, band=None):
    from redrock.targets import Spectrum
    import scipy.sparse
    n = len(wave)
    R = fix.mk_R(n, width) if width else scipy.sparse.dia_matrix((np.ones((1, n)), [0]), shape=(n, n))
    return Spectrum(np.array(wave, float), np.array(flux, float), np.array(ivar, float), R, None, band=band)


def check_scan(r, specs, t, Rs, w, f, rec, tag=''):
    """specs: list of (wave) only used for the design; w, f stacked originals."""
    nz = len(t.redshifts)
    if r['zchi2'].shape != (nz,) or r['zcoeff'].shape != (nz, t.nbasis) or r['penalty'].shape != (nz,):
        raise core.Violation('shape', f'{r["zchi2"].shape} {r["zcoeff"].shape}')
    if not np.array_equal(r['redshifts'], t.redshifts):
        raise core.Violation('redshifts', 'redshifts differ from the template')
    if np.sum(w) == 0:
        if np.any(r['zchi2'] != HUGE) or np.any(r['zcoeff'] != 0) or np.any(r['penalty'] != 0):
            raise core.Violation('nodata', f'no data: chi2 {r["zchi2"]} coeff {r["zcoeff"]}')
        return
    for i, z in enumerate(t.redshifts):
        T = DES(t, specs, Rs, i, z)
        c, chi2, cond = oracle.optimum(T, w, f, t.method)
        got, gc = r['zchi2'][i], r['zcoeff'][i]
        scale = float(np.sum(w * np.where(w > 0, f, 0.) ** 2)) + 1e-30
        if not np.isfinite(got) and cond < CONDMAX:
            raise core.Violation('finite', f'{tag} z={z}: chi2 {got}')
        if cond < CONDMAX:
            if abs(got - chi2) > 1e-7 * scale:
                raise core.Violation(f'chi2:{t.method}', f'{tag} z={z}: chi2 {got!r}, optimum {chi2!r} (coefficients {gc}, optimal {c})')
            cc = oracle.chi2_of(T, w, f, gc)
            if abs(cc - got) > 1e-7 * scale:
                raise core.Violation(f'coeff:{t.method}', f'{tag} z={z}: coefficients {gc} give chi2 {cc}, reported {got}')
            if t.method == 'NMF' and np.any(gc < 0):
                raise core.Violation('negative', f'{tag} z={z}: negative NMF coefficient {gc}')
            if t.method == 'PCA' and cond < 1e3 and not np.allclose(gc, c, rtol=1e-5, atol=1e-6 * np.abs(c).max() + 1e-12):
                raise core.Violation('coeff-value', f'{tag} z={z}: {gc} vs {c}')
            rec.count('optimality_checks')
        elif np.isfinite(got) and got != HUGE and got < chi2 - 1e-6 * scale:
            raise core.Violation('below-optimum', f'{tag} z={z}: chi2 {got} is below the minimum {chi2}')
        pen = oracle.oii_penalty(t, gc)
        if abs(r['penalty'][i] - pen) > 1e-8 * (1 + abs(pen)):
            raise core.Violation('penalty', f'{tag} z={z}: penalty {r["penalty"][i]}, expected {pen}')
        if pen > 0:
            rec.count('penalised')


_DES = {}


def DES(t, specs, Rs, i, z):
    key = (id(t), id(specs), i)
    if key not in _DES:
        if len(_DES) > 5000:
            _DES.clear()
        _DES[key] = (np.vstack([R @ oracle.basis_on(t, wv, z) for wv, R in zip(specs, Rs)]), t, specs)
    return _DES[key][0]


GRIDS = {}


def run_grid(rec, c):
    """Every flux and weight pattern of a few pixels (first pixels fixed by the block)."""
    npix, nb, method, kind, width = c['npix'], c['nb'], c['method'], c['kind_t'], c['width']
    key = (npix, nb, method, kind, width)
    if key not in GRIDS:
        wave = 4000. + 23. * np.arange(npix)
        GRIDS[key] = (templ(nb, method, kind), [wave], [fix.mk_R(npix, width).toarray() if width else np.eye(npix)])
    t, waves, Rs = GRIDS[key]
    from redrock.targets import Target, DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zscan import calc_zchi2_targets
    fl, iv = c['flux'], c['ivar']
    for f in itertools.product(fl, repeat=npix - 1):
        f = (c['f0'],) + f
        combos = list(itertools.product(iv, repeat=npix))
        tg, data = [], []
        for k, w in enumerate(combos):
            ff = np.array(f, float)
            w = np.array(w, float)
            garbage = np.where(w > 0, ff, c['garbage'])
            tg.append(Target(k, [mk_spec(waves[0], garbage, w, width)]))
            data.append((w, ff))
        with rec.case(dict(c, flux_pattern=f)):
            dt = DistTargetsCopy(tg)
            dtm = DistTemplate(t, {tg[0].spectra[0].wavehash: waves[0]})
            res = calc_zchi2_targets(dt, [dtm])
            for k, (w, ff) in enumerate(data):
                check_scan(res[k][t.full_type], waves, t, Rs, w, ff, rec, f'flux {ff} ivar {w}')
                rec.ev()
                if np.count_nonzero(w) >= nb:
                    rec.nontrivial(key, f, tuple(w))
        if rec.viol:
            return
    rec.sample(dict(flux=f, ivar=combos[-1], template=str(t)), 1)


def run_struct(rec, c):
    """Orders, splits, scalings, masked garbage, several grids and absorption models."""
    from redrock.targets import Target
    t = templ(c['nb'], c['method'], c['type'], igm=c['igm'], zs=c['zs'], wmin=c.get('wmin', 3500.), wmax=5600.)
    base = fix.mk_target(7, bands=c['bands'], mask=c['mask'], width=c['width'], key='c09s', use_band=c['useband'], z=0.02)
    specs = base.spectra
    Rs = [oracle.Rmat(s) for s in specs]
    waves = [s.wave.copy() for s in specs]
    w, f = oracle.stack(specs)
    ref = scan(base, t)
    check_scan(ref, waves, t, Rs, w, f, rec, 'base')
    if np.sum(w) == 0:
        from redrock.targets import DistTargetsCopy
        from redrock.templates import DistTemplate
        from redrock.zfind import zfind
        with core.quiet():
            dt = DistTargetsCopy([base])
            tab = zfind(dt, [DistTemplate(t, dt.wavegrids())])[1]
        rec.ev()
        if np.any(np.asarray(tab['coeff']) != 0) or np.any(np.asarray(tab['chi2']) < HUGE * (1 - 1e-6)):
            raise core.Violation('nodata-fit', f'no data: fit with chi2 {list(tab["chi2"])} coefficients {np.asarray(tab["coeff"]).tolist()}')
    n = len(specs)
    cond = 1.0
    if np.sum(w) > 0:
        cond = max(oracle.optimum(DES(t, waves, Rs, i, z), w, f, t.method)[2] for i, z in enumerate(t.redshifts))

    def same(r, what, fs=1.0, cs=None):
        cs = fs if cs is None else cs
        scale = float(np.sum(w * f * f)) * fs * fs
        if cond > CONDMAX:
            rec.count('ill_conditioned_variants')
            return
        rec.ev()
        if not np.allclose(r['zchi2'], ref['zchi2'] * (fs ** 2 if ref['zchi2'][0] != HUGE else 1), rtol=1e-8, atol=1e-8 * scale):
            raise core.Violation(what, f'chi2 {r["zchi2"]} vs {ref["zchi2"]}')
        if cond < 1e4 and not np.allclose(r['zcoeff'], ref['zcoeff'] * cs, rtol=1e-5, atol=1e-6 * np.abs(ref['zcoeff']).max() * cs + 1e-12 * max(1., cs)):
            raise core.Violation(what + ':coeff', f'coefficients {r["zcoeff"]} vs {ref["zcoeff"]}')
        rec.count('variants_equal')
    from redrock.targets import Spectrum

    def clone(s, flux=None, ivar=None):
        return Spectrum(s.wave.copy(), (s.flux if flux is None else flux).copy(), (s.ivar if ivar is None else ivar).copy(), s.R, None, band=s.band)
    for p in itertools.permutations(range(n)):
        same(scan(Target(7, [clone(specs[i]) for i in p]), t), 'order')
    for i in range(n):                       # one spectrum split in two of half the weight, at any place
        for pos in range(n + 1):
            lst = [clone(s) for s in specs]
            lst[i] = clone(specs[i], ivar=specs[i].ivar * 0.25)
            lst.insert(pos, clone(specs[i], ivar=specs[i].ivar * 0.75))
            same(scan(Target(7, lst), t), 'split')
    for fs in (0.5, 3.0, 1e3):
        same(scan(Target(7, [clone(s, flux=s.flux * fs) for s in specs]), t), 'scale', fs)
    for us in (1e-7, 1e7):                  # other units of flux
        same(scan(Target(7, [clone(s, flux=s.flux * us, ivar=s.ivar / us ** 2) for s in specs]), t), 'units', 1.0, us)
    for g in (0., -1e6, 1e9, 1e100):
        same(scan(Target(7, [clone(s, flux=np.where(s.ivar > 0, s.flux, g)) for s in specs]), t), 'masked-flux')
    rec.nontrivial('s', c)


def run_degenerate(rec, c):
    from redrock.targets import Target
    t = degenerate(c['nb'], c['how'], c['method'], c['type'])
    npix = c['npix']
    wave = 4000. + 23. * np.arange(npix)
    for mask in itertools.product((0, 1), repeat=npix):
        for f in ([0.] * npix, [1.] * npix, [(-1.) ** i * (i + 1) for i in range(npix)]):
            w = np.array(mask, float)
            r = scan(Target(1, [mk_spec(wave, f, w, c['width'])]), t)
            waves = [wave]
            Rs = [fix.mk_R(npix, c['width']).toarray() if c['width'] else np.eye(npix)]
            check_scan(r, waves, t, Rs, w, np.array(f), rec, f'degenerate {c["how"]}')
            if np.any(np.isnan(r['zchi2'])):
                raise core.Violation('nan', f'chi2 {r["zchi2"]} for mask {mask}')
            rec.ev()
            rec.nontrivial('d', c, mask, f)


def run_patch(rec, c):
    """A basis vector with light at the observed wavelengths for every subset of the trial redshifts only."""
    from redrock.templates import Template
    from redrock.targets import Target
    nz, nb = c['nz'], c['nb']
    zs = [round(0.05 * i, 3) for i in range(nz)]
    base = templ(nb, c['method'], c['type'], zs=zs, wmin=3000., wmax=4800.)
    wave = 4000. + 11. * np.arange(6)
    Rs = [fix.mk_R(6, 1).toarray()]
    for sub in itertools.product((0, 1), repeat=nz):
        f = np.array(base.flux)
        on = np.zeros(len(base.wave))
        for i, q in enumerate(sub):
            if q:
                on[(base.wave > 3950. / (1 + zs[i])) & (base.wave < 4110. / (1 + zs[i]))] = 1
        f[c['vec']] = f[c['vec']] * on
        t = Template(spectype=c['type'], subtype='', redshifts=np.array(zs), wave=base.wave, flux=f, method=c['method'], igm_model='None')
        for fl in itertools.product((0., 1., -2.), repeat=2):
            for w in ([1.] * 6, [0., 1., 2., 1., 0., 1.]):
                fx = np.array([1., fl[0], 2., fl[1], 1., 3.])
                w = np.array(w)
                r = scan(Target(1, [mk_spec(wave, fx, w, 1)]), t)
                check_scan(r, [wave], t, Rs, w, fx, rec, f'light at redshifts {sub}')
                rec.ev()
                rec.nontrivial('p', c, sub, fl)
        _DES.clear()


def run_solver(rec, c):
    """solve_matrices against the exact minimiser of x'Mx - 2y'x over its feasible set."""
    from redrock import zscan
    if not hasattr(zscan, 'solve_matrices'):
        raise core.Skip('no redrock.zscan.solve_matrices')
    vals = c['vals']
    rows = list(itertools.product(vals, repeat=c['n']))
    for T in itertools.combinations_with_replacement(rows, c['m']):
        T = np.array(T, float)
        for f in itertools.product((-1., 0., 2.), repeat=c['m']):
            f = np.array(f)
            M, y = T.T @ T, T.T @ f
            sv = np.linalg.svd(T, compute_uv=False)
            ok = len(sv) >= c['n'] and sv[-1] > 1e-6
            for alg in ('PCA', 'NMF', 'nnls', 'BVLS'):
                nn = c['nonneg'] if alg == 'BVLS' else [alg != 'PCA'] * c['n']
                args = None
                if alg == 'BVLS':
                    args = dict(bounds=np.array([[0. if q else -np.inf for q in nn], [np.inf] * c['n']]))
                try:
                    x = zscan.solve_matrices(M.copy(), y.copy(), solve_algorithm=alg, solver_args=args)
                except np.linalg.LinAlgError:
                    if ok:
                        raise core.Violation(f'solver:{alg}:error', f'LinAlgError for M={M.tolist()} y={y.tolist()}')
                    continue
                rec.ev()
                if not ok:
                    continue
                if any(q and x[i] < -1e-12 for i, q in enumerate(nn)):
                    raise core.Violation(f'solver:{alg}:bounds', f'{x} for M={M.tolist()} y={y.tolist()}')
                c0 = oracle.bounded(T, f, nn)
                a, b = np.sum((T @ x - f) ** 2), np.sum((T @ c0 - f) ** 2)
                if a > b + 1e-9 * (1 + b):
                    raise core.Violation(f'solver:{alg}:optimum', f'chi2 {a} at {x}, minimum {b} at {c0}; T={T.tolist()} f={f.tolist()}')
                rec.nontrivial('m', alg, T.tolist(), f.tolist())


def dispatch(rec, c):
    with rec.case(c):
        dict(grid=run_grid, struct=run_struct, degenerate=run_degenerate, solver=run_solver, patch=run_patch)[c['k']](rec, c)


def make():
    return core.Check('C09', 'exploration',
        rule='every flux and weight pattern over a small alphabet on a few pixels (per template size, solver family, resolution width), every order and split of a target, every mask with degenerate templates; non-trivial: at least as many unmasked pixels as basis vectors',
        assumptions=['optimality is asserted where the weighted design matrix has condition number below 1e6', 'masked flux is finite'],
        explanation='bounded-exhaustive enumeration of real scans against exact least squares by active-set enumeration')


def run(ck):
    items = []
    FL = (0., 1., -2.) if not ck.thorough else (0., 1., -2., 7.)
    IV = (0., 1., 4.)
    for method, kind in (('PCA', 'QSO'), ('PCA', 'GALAXY'), ('NMF', 'QSO')):
        for nb in (1, 2, 3):
            for width in (0, 1):
                for f0 in FL:
                    items.append(dict(k='grid', npix=4 if not (ck.thorough and nb == 2) else 5, nb=nb, method=method, kind_t=kind, width=width,
                                      flux=FL, ivar=IV if nb > 1 or ck.thorough else (0., 2.), f0=f0, garbage=1e5))
    for bands in ('b', 'br', 'brz', 'zb'):
        for mask in ('none', 'some', 'band0', 'few', 'all'):
            for method, ty in (('PCA', 'GALAXY'), ('NMF', 'GALAXY'), ('PCA', 'STAR')):
                for nb in (1, 2, 4):
                    for igm, zs in (('None', [0., 0.03]), ('Inoue14', [2.2, 2.6]), ('Calura12', [3.1, 2.4])):
                        if igm != 'None' and (mask in ('few', 'all') or nb == 1):
                            continue
                        if not ck.thorough and len(bands) == 3 and (nb == 1 or igm == 'Calura12'):
                            continue
                        items.append(dict(k='struct', bands=bands, mask=mask, method=method, type=ty, nb=nb, igm=igm, zs=zs, width=1 + len(bands) % 3,
                                          useband=(nb + len(bands)) % 2 == 0, wmin=900. if zs[0] > 1 else 3500.))
    for how, nb in (('same', 2), ('same', 3), ('zero', 1), ('zero', 2), ('combo', 3)):
        for method, ty in (('PCA', 'GALAXY'), ('NMF', 'QSO')):
            for width in (0, 1):
                items.append(dict(k='degenerate', how=how, nb=nb, method=method, type=ty, npix=4, width=width))
    for method, ty in (('PCA', 'QSO'), ('PCA', 'GALAXY'), ('NMF', 'QSO')):
        for nb in (2, 3) if ck.thorough else (2,):
            for vec in range(nb):
                items.append(dict(k='patch', nz=5 if ck.thorough else 4, nb=nb, vec=vec, method=method, type=ty))
    for n, m, vals in ((1, 2, (0., 1., -1., 3.)), (2, 2, (0., 1., -1.)), (2, 3, (0., 1., -1.)), (3, 3, (0., 1., -1.) if ck.thorough else (0., 1.))):
        for nn in itertools.product((True, False), repeat=n):
            items.append(dict(k='solver', n=n, m=m, vals=vals, nonneg=nn))
    core.pmap(items, dispatch, ck, timeout=900)


def replay(rec, case):
    if case['k'] == 'grid' and 'flux_pattern' in case:
        c = dict(case)
        c.pop('flux_pattern')
        dispatch(rec, c)
    else:
        dispatch(rec, case)
