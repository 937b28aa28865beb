"""C18: archetype fits select the true best archetype, with coefficients that belong to it."""
import itertools, os, tempfile
import numpy as np
from mc import core, fix, oracle

TEMPL = dict(G=('GALAXY', '', 3), Q=('QSO', '', 2), S=('STAR', 'A', 2), T=('STAR', 'B', 1))
NARCH = 4
SHIFT = {'GALAXY': 0, 'QSO': 1, 'STAR': 2}
LONG = ['emission-line-galaxy', 'x', 'E+A', 'quiescent']       # names of any length
_cache = {}


def archetypes(kinds, loglam, narch=NARCH):
    """dict type -> Archetype read from synthetic files (cached per process)."""
    from redrock.archetypes import All_archetypes
    k = (kinds, loglam, narch, os.getpid())
    if k not in _cache:
        with tempfile.TemporaryDirectory(prefix='c18') as d:
            for q in kinds:
                fix.mk_archetypes(os.path.join(d, f'rrarchetype-{TEMPL[q][0].lower()}.fits'), TEMPL[q][0], n=narch, key=q, loglam=loglam, wmin=900., nw=360,
                                  subtypes=[LONG[i % len(LONG)] for i in range(narch)] if loglam else None)
            _cache[k] = All_archetypes(archetypes_dir=d).archetypes
            if sorted(_cache[k]) != sorted({TEMPL[q][0] for q in kinds}):
                raise core.Violation('found', f'{sorted(_cache[k])} found for {kinds}')
    return _cache[k]


def legendre(w, n):
    x = 2 * (w - w.min()) / (w.max() - w.min()) - 1
    return np.array([np.polynomial.legendre.Legendre.basis(i)(x) for i in range(n)]).reshape(n, len(w)).T


def camera_of(spectra):
    """wavelength grid (camera) index of every spectrum, in order of first appearance, and their names."""
    key = []
    idx = []
    names = []
    for s in spectra:
        h = s.wave.tobytes()
        if h not in key:
            key.append(h)
            names.append(s.band)
        idx.append(key.index(h))
    return idx, names


def matrix(spectra, arch, which, z, deg, percam):
    """Design matrix of archetypes `which` with the Legendre terms, columns by camera in sorted order of band."""
    idx, names = camera_of(spectra)
    order = sorted(range(len(names)), key=lambda i: names[i]) if all(n is not None for n in names) else list(range(len(names)))
    ncam = len(names) if percam else 1
    out = []
    for s, ic in zip(spectra, idx):
        w = np.asarray(s.wave, float)
        A = oracle.rebin(np.asarray(arch.wave) * (1 + z), arch.flux[list(which)], w) * np.exp(-oracle.tau('Inoue14', z, w))[:, None]
        L = np.zeros((len(w), ncam * deg))
        j = order.index(ic) if percam else 0
        L[:, j * deg:(j + 1) * deg] = legendre(w, deg)
        out.append(oracle.Rmat(s) @ np.hstack([A, L]))
    return np.vstack(out), ncam


def solve(T, w, f, n, P):
    """Optimum with the first n coefficients >= 0; columns without any data (masked camera) are left out."""
    use = np.array([np.any(T[w > 0, j] != 0) or (P is not None and P[j, j] > 0) for j in range(T.shape[1])])
    c = np.zeros(T.shape[1])
    cc, chi2, cond = oracle.optimum(T[:, use], w, f, 'BVLS', [bool(j < n) for j in np.where(use)[0]], None if P is None else P[use][:, use])
    c[use] = cc
    return c, chi2, cond, bool(use.all())


def check_row(rec, tgt, arch, row, c, tag):
    z = float(row['z'])
    deg, percam, nn = c['deg'], c['percam'], c['nn']
    n0 = len(arch.flux)
    w, f = oracle.stack(tgt.spectra)
    subs = str(row['subtype']).split(';')
    labels = [str(x) for x in arch._subtype]
    if any(s not in labels for s in subs):
        raise core.Violation('subtype', f'{tag} subtype {row["subtype"]} is not one of {labels}')
    if len(set(labels)) != n0:
        raise core.Violation('labels', f'{labels} not distinct')
    want_n = 1 if nn is None else min(nn, n0)
    if len(subs) != want_n or len(set(subs)) != want_n:
        raise core.Violation('nsub', f'{tag} subtype {row["subtype"]}, expected {want_n} archetypes')
    if row['fitmethod'] != 'ARCH':
        raise core.Violation('fitmethod', f'{tag} {row["fitmethod"]}')
    coeff = np.atleast_1d(np.asarray(row['coeff'], float))[:want_n]
    rest = np.atleast_1d(np.asarray(row['coeff'], float))[want_n:]
    if np.any(rest != 0):
        raise core.Violation('extra', f'{tag} coefficients {row["coeff"]} for {want_n} archetypes')
    leg = np.asarray(row['legcoeff'], float).reshape(-1) if 'legcoeff' in row.colnames else np.zeros(0)
    if len(w) == 0 or w.sum() == 0:
        if np.any(coeff != 0) or np.any(leg != 0):
            raise core.Violation('nodata', f'{tag} coefficients {coeff} {leg} without data')
        return
    P1 = None
    ncam = len(camera_of(tgt.spectra)[1]) if percam else 1
    if len(leg) < ncam * deg or np.any(leg[ncam * deg:] != 0):
        raise core.Violation('nleg', f'{tag} {len(leg)} Legendre coefficients, expected {ncam} x {deg}')
    leg = leg[:ncam * deg]

    def prior(n):
        if c['prior'] is None or not percam or deg == 0:
            return None
        return np.diag([0.] * n + [1 / c['prior'] ** 2] * (ncam * deg))

    allchi, conds = [], []
    for a in range(n0):
        T, _ = matrix(tgt.spectra, arch, [a], z, deg, percam)
        cc, chi2, cond, full = solve(T, w, f, 1, prior(1))
        allchi.append(chi2)
        conds.append(cond)
    allchi = np.array(allchi)
    sel = [labels.index(s) for s in subs]
    scale = float(np.sum(w * np.where(w > 0, f, 0) ** 2))
    tol = 1e-7 * scale + 1e-7 * allchi.max()
    # chi2 belongs to the coefficients
    T, _ = matrix(tgt.spectra, arch, sel, z, deg, percam)
    got = oracle.chi2_of(T, w, f, np.concatenate([coeff, leg]))
    if abs(got - row['chi2']) > tol:
        raise core.Violation('chi2', f'{tag} reported chi2 {row["chi2"]}, the coefficients {coeff} {leg} give {got}')
    if np.any(coeff < -1e-10):
        raise core.Violation('negative', f'{tag} archetype coefficients {coeff}')
    if max(conds) > 1e6:
        rec.count('illconditioned')
        return
    # selection
    order = np.argsort(allchi, kind='stable')
    if nn is None:
        if allchi[sel[0]] > allchi.min() + tol:
            raise core.Violation('best', f'{tag} archetype {subs} with chi2 {allchi[sel[0]]}, best is {labels[order[0]]} with {allchi.min()}: {allchi}')
    else:
        s = np.sort(allchi)
        for k, a in enumerate(sel):
            if abs(allchi[a] - s[k]) > tol:
                raise core.Violation('nearest', f'{tag} archetypes {subs}; chi2 of all: {dict(zip(labels, allchi))}')
    cc, chi2, cond, full = solve(T, w, f, want_n, prior(want_n))
    mtol = tol if full else 1e-5 * scale + tol        # undetermined terms of a masked camera
    if cond > 1e6:
        rec.count('illconditioned')
        return
    if prior(want_n) is None:
        if row['chi2'] > chi2 + mtol:
            raise core.Violation('minimum', f'{tag} chi2 {row["chi2"]}, minimum {chi2}')
    both = np.concatenate([coeff, leg])
    dmod = T @ (both - cc)
    if float(np.sum(w * dmod ** 2)) > (1e-8 if full else 1e-5) * scale + 1e-9:
        raise core.Violation('coeff', f'{tag} archetype {coeff} Legendre {leg}, expected {cc}')
    if prior(want_n) is not None and np.abs(both - cc).max() > 1e-4 * (1 + np.abs(cc).max()):
        raise core.Violation('coeff', f'{tag} archetype {coeff} Legendre {leg}, expected {cc}')
    if np.any(cc[:want_n] == 0):
        rec.count('at_bound')
    rec.nontrivial(subs, round(z, 3), c['deg'], percam)


def make_target(c, k):
    bands, nspec = c['bands'], c['nspec']
    m, amp, z = c['targets'][k]
    return fix.mk_target(k, bands=bands, nspec=nspec, mask=m, key=('c18', k), z=z, amp=amp, coadd=c.get('coadd', False), use_band=c.get('names', True))


def run_fit(rec, c):
    """Whole fits through zfind, every reported row recomputed."""
    arch = archetypes(c.get('arch'), c.get('loglam', False), c.get('narch', NARCH))
    zr = c.get('zr', (0.0, 0.3))
    tm = [fix.mk_template(*TEMPL[q][:2], nbasis=TEMPL[q][2], zmin=zr[0], zmax=zr[1], nz=5, wmin=c.get('wmin', 2500.), key='c18', igm=c.get('igm', 'Inoue14')) for q in c['templates']]
    tg = [make_target(c, k) for k in range(len(c['targets']))]
    # the same target objects fit again with other options: every fit is judged on its own
    for h in c.get('hist', []) + [{}]:
        fit_once(rec, dict(c, **h), arch, tm, tg)


def fit_once(rec, c, arch, tm, tg):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    ZW = oracle.ZW
    dt = DistTargetsCopy(tg)
    ncamera = len(set(camera_of(tg[0].spectra)[1])) if c.get('names', True) else len(c['bands'])
    kw = dict(nminima=c['nmin'], archetypes=arch, per_camera=c['percam'], deg_legendre=c['deg'], n_nearest=c['nn'],
              prior_sigma=c['prior'], ncamera=ncamera, zminfit_npoints=c.get('npt', 7))
    with core.quiet():
        scan, tab = zfind(dt, [DistTemplate(t, dt.wavegrids()) for t in tm], **kw)
    for need in ('pca_coeff', 'pca_spectype', 'pca_subtype'):
        if need not in tab.colnames:
            raise core.Violation('columns', f'column {need} missing: {tab.colnames}')
    if c['deg'] > 0 and 'legcoeff' not in tab.colnames:
        raise core.Violation('columns', f'column legcoeff missing: {tab.colnames}')
    for name in tab.colnames:
        if hasattr(tab[name], 'mask') and np.any(tab[name].mask):
            raise core.Violation('masked', f'column {name} has missing values')
    nbas = {(TEMPL[q][0], TEMPL[q][1]): TEMPL[q][2] for q in c['templates']}
    tobj = {(t.template_type, t.sub_type): t for t in tm}
    for t in tg:
        rows = tab[tab['targetid'] == t.id]
        if len(rows) == 0:
            raise core.Violation('missing', f'no rows for target {t.id}')
        if c.get('zr') is None and t.id == 0 and set(map(str, rows['spectype'])) != {TEMPL[q][0] for q in c['templates']}:
            raise core.Violation('types', f'target {t.id}: types {set(rows["spectype"])}, expected those of {c["templates"]}')
        npix = sum(int((s.ivar > 0).sum()) for s in t.spectra)
        for i, row in enumerate(rows):
            rec.ev()
            tag = f'target {t.id} row {i} ({row["spectype"]} {row["subtype"]} z={row["z"]:.5f}):'
            sp, psub = str(row['spectype']), str(row['pca_subtype'])
            if sp != str(row['pca_spectype']):
                raise core.Violation('pca-type', f'{tag} pca_spectype {row["pca_spectype"]}')
            if (sp, psub) not in nbas:
                raise core.Violation('pca-subtype', f'{tag} pca_subtype {psub}')
            nb = nbas[(sp, psub)]
            pc = np.atleast_1d(np.asarray(row['pca_coeff'], float))
            if len(pc) < nb or np.any(pc[nb:] != 0):
                raise core.Violation('pca-coeff', f'{tag} {pc} for {nb} basis vectors')
            # the template coefficients are the template's own best fit at this redshift
            if npix:
                tt = tobj[(sp, psub)]
                T = oracle.design(t.spectra, tt, float(row['z']))
                w, f = oracle.stack(t.spectra)
                cc, _, cond = oracle.optimum(T, w, f, tt.method)
                if cond < 1e6 and np.sum(w * (T @ (pc[:nb] - cc)) ** 2) > 1e-8 * np.sum(w * np.where(w > 0, f, 0) ** 2) + 1e-9:
                    raise core.Violation('pca-coeff', f'{tag} template coefficients {pc[:nb]}, expected {cc}')
            if row['npixels'] != npix or bool(row['zwarn'] & ZW.NODATA) != (npix == 0):
                raise core.Violation('npixels', f'{tag} npixels {row["npixels"]} zwarn {row["zwarn"]}, {npix} used')
            if sp in arch:
                check_row(rec, t, arch[sp], row, c, tag)
            else:
                if str(row['subtype']) != psub or str(row['fitmethod']) != 'PCA':
                    raise core.Violation('plain', f'{tag} subtype {row["subtype"]} method {row["fitmethod"]} for a type without archetypes')
                co = np.atleast_1d(np.asarray(row['coeff'], float))
                if not np.allclose(co[:nb], pc[:nb]) or np.any(co[nb:] != 0):
                    raise core.Violation('plain-coeff', f'{tag} {co} differs from {pc}')
                if 'legcoeff' in row.colnames and np.any(np.asarray(row['legcoeff']) != 0):
                    raise core.Violation('plain-leg', f'{tag} Legendre coefficients of a type without archetypes')
            # rendering the row gives the fitted model
            b = {k.upper(): row[k] for k in row.colnames}
            for s in t.spectra:
                s._Rcsr = s.R.tocsr()
            m = t.eval_model(b, tobj, archetypes=arch, nleg=c['deg'])
            w, f = oracle.stack(t.spectra)
            got = float(np.sum(w * np.where(w > 0, f - np.concatenate([m[s.wavehash] for s in t.spectra]), 0) ** 2))
            if npix and sp in arch and abs(got - row['chi2']) > 1e-6 * (np.sum(w * np.where(w > 0, f, 0) ** 2) + row['chi2']):
                raise core.Violation('eval', f'{tag} the evaluated model has chi2 {got}, reported {row["chi2"]}')
            if row['zwarn'] & ZW.NEGATIVE_MODEL and (sp not in arch or np.all(np.atleast_1d(row['coeff'])[:1 if c['nn'] is None else min(c['nn'], len(arch[sp].flux))] > 0)):
                raise core.Violation('flag', f'{tag} NEGATIVE_MODEL with coefficients {row["coeff"]}')
            neg = str(sp) in arch and np.any(np.atleast_1d(row['coeff'])[:1 if c['nn'] is None else c['nn']] < 0)
            if neg and not row['zwarn'] & ZW.NEGATIVE_MODEL:
                raise core.Violation('flag', f'{tag} negative archetype coefficient without warning')


def run_select(rec, c):
    """get_best_archetype itself on every flux pattern over a small alphabet."""
    from redrock.targets import Spectrum, Target
    from redrock.zscan import spectral_data
    from redrock.fitz import prior_on_coeffs
    import scipy.sparse
    arch = archetypes('G', c['loglam'])
    nb = len(c['bands'])
    for pat in itertools.product(c['alpha'], repeat=4):
        specs = []
        for ib, b in enumerate(c['bands']):
            w = 4000. + 300. * 'brz'.index(b) + 25. * np.arange(10)
            x = np.interp(w, 4000. + 900. * np.arange(4) / 3., pat)
            iv = np.ones(10)
            if c['mask'] == 'edge':
                iv[:3] = 0
            elif c['mask'] == 'cam' and ib == 0:
                iv[:] = 0
            fl = x + 0.3 * np.exp(-(w - 4250.) ** 2 / 3000.)
            specs.append(Spectrum(w, fl, iv, fix.mk_R(10, 1), fix.mk_R(10, 1).tocsr(), band=b))
        t = Target(1, specs)
        t.legendre(c['deg'])
        wt, fl, wf = spectral_data(t.spectra)
        dw = {s.wavehash: s.wave for s in t.spectra}
        z = c['z']
        P = None
        ncam = nb if c['percam'] else 1
        if c['prior'] is not None:
            P = prior_on_coeffs(c['nn'] or 1, c['deg'], c['prior'], ncam)
        with rec.case(dict(c, alpha=list(pat), one=1)):
            chi2, co, ft = arch['GALAXY'].get_best_archetype(t, wt, fl, wf, dw, z, c['percam'], c['nn'], prior=P)
            co = np.asarray(co)
            n = 1 if c['nn'] is None else min(c['nn'], NARCH)
            sp, su = ft.split(':::')
            import astropy.table
            row = astropy.table.Table(dict(z=[z], subtype=[su], coeff=[co[:n]], legcoeff=[co[n:]], chi2=[chi2], fitmethod=['ARCH']))[0]
            if sp != 'GALAXY':
                raise core.Violation('type', ft)
            if len(co) != n + ncam * c['deg']:
                raise core.Violation('ncoeff', f'{len(co)} coefficients for {n} archetypes, {ncam} cameras, degree {c["deg"]}')
            rec.ev()
            check_row(rec, t, arch['GALAXY'], row, c, f'flux {pat} bands {c["bands"]}:')


def dispatch(rec, c):
    with rec.case(c):
        dict(fit=run_fit, select=run_select)[c['k']](rec, c)


def make():
    return core.Check('C18', 'exploration',
        rule='every combination of Legendre degree, per-camera, prior, nearest neighbours, camera order and types with archetypes through the real zfind, every reported row recomputed from the archetypes; and the selection on every flux pattern over a small alphabet; non-trivial: distinct selected archetypes and redshifts',
        assumptions=['coefficients asserted below condition number 1e6 of the problem', 'which of several archetypes with equal chi2 is reported is free', 'the Legendre prior applies to per-camera fits only, as documented'],
        explanation='bounded-exhaustive enumeration of option combinations and small spectra through the real archetype code against exact non-negative least squares over all archetypes')


TG = [('none', 1.0, 0.13), ('some', 1.0, 0.05), ('band0', 0.7, 0.2), ('all', 1.0, 0.1), ('few', 1.0, 0.1), ('none', -0.5, 0.1)]


def run(ck):
    T = ck.thorough
    items = []
    i = 0
    opts = [(d, p, s, n) for d in (0, 1, 2, 3) for p in (True, False) for s in (None, 0.1, 2.0) for n in (None, 2, 3, 6)]
    confs = [('br', 1, 'G', 'G'), ('rb', 1, 'GQ', 'G'), ('brz', 1, 'GSQ', 'GQ'), ('zbr', 1, 'SG', 'GS'), ('rzb', 1, 'QSTG', 'GSQ'), ('b', 1, 'STG', 'S'), ('br', 1, 'QG', 'GS'), ('zrb', (1, 2, 1), 'GQ', 'GQ'), ('br', 2, 'QG', 'G')]
    for j, (d, p, s, n) in enumerate(opts):
        use = confs if T else [confs[(j + q) % len(confs)] for q in (0, 3, 5)]
        for (b, ns, te, ar) in use:
            items.append(dict(k='fit', bands=b, nspec=ns, templates=te, arch=ar, deg=d, percam=p, prior=s, nn=n, nmin=2, targets=TG if T else [TG[0], TG[1 + j % 5]], loglam=bool(j % 2), narch=4))
    # coadded by redrock, absorbed, other transmission models, spectra without camera names, few minima
    for d, p, s, n in ((2, True, 0.1, None), (2, False, None, 2), (0, False, None, None)):
        for extra in (dict(coadd=True, nspec=2), dict(zr=(2.4, 2.7), igm='Inoue14', wmin=900.), dict(zr=(2.4, 2.7), igm='Calura12', wmin=900.), dict(zr=(2.4, 2.7), igm='None', wmin=900.), dict(names=False), dict(nmin=5, npt=15), dict(narch=1), dict(narch=7)):
            c = dict(k='fit', bands='rb', nspec=1, templates='GQ', arch='GQ', deg=d, percam=p, prior=s, nn=n, nmin=2, targets=TG[:4], loglam=False)
            c.update(extra)
            items.append(c)
    # cameras without names are in the order of the spectra
    for b in ('br', 'zrb', 'brz', 'bzr') + (('rbz', 'zbr') if T else ()):
        for d, n in ((1, None), (2, 2)):
            items.append(dict(k='fit', bands=b, nspec=1, templates='G', arch='G', deg=d, percam=True, prior=(0.1, None)[d % 2], nn=n, nmin=2, targets=[TG[0], TG[2]], loglam=False, narch=3, names=False))
    # more than three cameras
    for b in ('bnrz', 'znbr'):
        for d, s, n in ((1, 0.1, None), (2, 0.1, 2), (1, None, None), (2, 2.0, 3)):
            items.append(dict(k='fit', bands=b, nspec=1, templates='G', arch='G', deg=d, percam=True, prior=s, nn=n, nmin=2, targets=[TG[0], TG[2]], loglam=False, narch=3))
    # histories of fits of the same targets: every pair (thorough: and triple) of degrees and modes
    modes = [dict(deg=d, percam=p, prior=s, nn=n) for d in (0, 1, 2, 3) for p, s, n in ((True, 0.1, 2), (False, None, None))]
    for L in ((2, 3) if T else (2,)):
        for h in itertools.product(modes, repeat=L):
            if len({m['deg'] for m in h}) > 1 and (L == 2 or len({m['percam'] for m in h}) > 1):
                items.append(dict(k='fit', bands='br', nspec=1, templates='G', arch='G', nmin=1, targets=TG[:1], loglam=False, narch=3, hist=list(h[:-1]), **h[-1]))
    for d in (0, 1, 2):
        for p, s in ((True, None), (True, 0.1), (False, None)):
            for n in (None, 2, 9):
                for b in ('b', 'zb', 'rb'):
                    for m in ('none', 'edge', 'cam'):
                        if m == 'cam' and len(b) == 1:
                            continue
                        i += 1
                        if not T and (d + len(b) + i) % 3:
                            continue
                        items.append(dict(k='select', bands=b, deg=d, percam=p, prior=s, nn=n, mask=m, z=0.1, alpha=[0., 1., 3.] if not T else [-1., 0., 1., 3.], loglam=bool(i % 2)))
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    c = dict(case)
    if c['k'] == 'select' and c.pop('one', 0):
        import itertools as it
        pat = tuple(c['alpha'])
        orig = it.product
        c['alpha'] = sorted(set(pat))
    dispatch(rec, c)
