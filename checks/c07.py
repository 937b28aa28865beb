"""C07: ranking, deltachi2 and warnings of the best-fit table."""
import itertools
import numpy as np
from mc import core, fix, oracle


def bits():
    return oracle.ZW


def run_codes(rec, c):
    """The bits of the warnings in the files are the documented ones, listed in order."""
    from redrock import zwarning
    W, badfit_mask = zwarning.ZWarningMask, getattr(zwarning, 'badfit_mask', None)
    want = {k: v for k, v in vars(oracle.ZW).items() if k.isupper()}
    got = {k: getattr(W, k, None) for k in want}
    if got != want:
        raise core.Violation('codes', f'{ {k: v for k, v in got.items() if v != want[k]} } differ from the documented {want}')
    fl = [(str(k), int(v)) for k, v in W.flags()]
    if [v for _, v in fl] != sorted(v for _, v in fl) or {k: v for k, v in fl if not k.startswith('RESERVED')} != want:
        raise core.Violation('codes', f'listed as {fl}')
    for zw in range(1 << 12):
        rec.ev()
        if badfit_mask is not None and bool(zw & badfit_mask) != bad(zw):
            raise core.Violation('badfit', f'warnings {zw}')
    rec.nontrivial('codes')


def bad(zw):
    ZW = bits()
    return bool(zw & (ZW.NEGATIVE_MODEL | ZW.MANY_OUTLIERS | ZW.Z_FITLIMIT | ZW.NEGATIVE_EMISSION | ZW.BAD_MINFIT))


def dv(z, zref):
    return oracle.C_KMS * (z - zref) / (1 + zref)


def expected_delta(chi2, z, zw, lim):
    """deltachi2 and whether the warning belongs there, from the definition."""
    n = len(chi2)
    d, s = [], []
    for i in range(n):
        later = [chi2[j] - chi2[i] for j in range(i + 1, n) if not bad(zw[j]) and abs(dv(z[j], z[i])) > min(lim[i], lim[j])]
        d.append(min(later) if later else 0.0)
        s.append(any(j != i and not bad(zw[j]) and abs(chi2[j] - chi2[i]) < 9. and abs(dv(z[j], z[i])) >= min(lim[i], lim[j]) for j in range(n)))
    return d, s


def run_delta(rec, c):
    from redrock import zfind as Z
    if not hasattr(Z, 'calc_deltachi2'):
        raise core.Skip('no calc_deltachi2')
    n = c['n']
    for zw in itertools.product(c['zw'], repeat=n):
        if [bad(x) for x in zw] != sorted(bad(x) for x in zw):
            continue
        nb = sum(bad(x) for x in zw)
        for z in itertools.product(c['z'], repeat=n):
            for lim in itertools.product((100., 1000.), repeat=n):
                for chi in itertools.product(c['chi2'], repeat=n):
                    if list(chi[:n - nb]) != sorted(chi[:n - nb]) or list(chi[n - nb:]) != sorted(chi[n - nb:]):
                        continue
                    a = np.array(zw)
                    d, s = Z.calc_deltachi2(np.array(chi), np.array(z), a, dvlimit=np.array(lim))
                    ed, es = expected_delta(chi, z, zw, lim)
                    rec.ev()
                    if not np.allclose(d, ed, rtol=0, atol=1e-9) or list(map(bool, s)) != es or list(a) != list(zw):
                        with rec.case(dict(c, zw1=zw, z1=z, lim1=lim, chi1=chi)):
                            raise core.Violation('deltachi2', f'chi2={chi} z={z} zwarn={zw} limits={lim}: got {list(d)} {list(s)}, expected {ed} {es}')
                    if any(ed) or any(es):
                        rec.count('delta_nontrivial')
        if rec.viol:
            return
    rec.nontrivial('d', c)


TYPES = dict(G=('GALAXY', '', 3), Q=('QSO', '', 2), Q2=('QSO', 'HIZ', 4), SA=('STAR', 'A', 2), SB=('STAR', 'B', 1), S=('STAR', '', 5), L=('AGN', '', 2))
_S = {}


def templates(names, waves):
    from redrock.templates import DistTemplate
    key = tuple(names)
    if key not in _S:
        ts = []
        for k in names:
            sp, su, nb = TYPES[k]
            ts.append(fix.mk_template(sp, su, nbasis=nb, redshifts=[0.0, 0.1, 0.2], dw=60., key='c07'))
        _S[key] = [DistTemplate(t, waves) for t in ts]
    return _S[key]


def run_zfind(rec, c):
    """The real zfind with every combination of candidates handed to it by the refinement step."""
    import redrock.zfind as Z
    from redrock.targets import Target, Spectrum, DistTargetsCopy
    import scipy.sparse
    names = c['templates']
    cands = [tuple(x) for x in c['cands']]
    per = [q for k in range(c['maxc'] + 1) for q in itertools.combinations(cands, k)]
    combos = [x for x in itertools.product(per, repeat=len(names)) if any(x)]
    combos = [x for i, x in enumerate(combos) if i % c['nblk'] == c['blk']]
    wave = 4000. + 20 * np.arange(6)
    sp = Spectrum(wave, np.ones(6), np.ones(6), scipy.sparse.eye(6).todia(), None, band='b')
    ZW = bits()
    for lo in range(0, len(combos), 400):
        part = combos[lo:lo + 400]
        order = list(range(len(part)))
        if c['order'] == 'rev':
            order = order[::-1]
        ids = [1000 + 7 * k for k in order]
        tg = []
        for tid in ids:
            tg.append(Target(tid, [sp], meta=dict(RA=tid * 0.5, RA_datatype='f8', BRICK=f'b{tid}')))
        dt = DistTargetsCopy(tg)
        dtm = templates(names, dt.wavegrids())
        byid = {1000 + 7 * k: part[k] for k in order}
        npx = {tid: c['npix'][i % len(c['npix'])] for i, tid in enumerate(sorted(byid))}
        calls = []

        def fake_fitz(zchi2, redshifts, target, template, nminima=3, **kw):
            calls.append(nminima)
            full = template.full_type
            j = [t.template.full_type for t in dtm].index(full)
            rows = byid[target.id][j]
            n, nb = len(rows), template.nbasis
            if n == 0:
                xf = np.zeros((0, 1))
                return dict(z=xf, zerr=xf, zwarn=np.zeros((0, 1), int), chi2=xf, zz=xf, zzchi2=xf, coeff=xf,
                            fitmethod=np.zeros((0, 1), str), npixels=np.zeros((0, 1), int))
            rows = sorted(rows, key=lambda r: r[0])
            return dict(z=np.array([[r[1]] for r in rows]), zerr=np.array([[0.001 * (j + 1)] for r in rows]),
                        zwarn=np.array([[r[2]] for r in rows]), chi2=np.array([[float(r[0])] for r in rows]),
                        zz=np.zeros((n, 5)) + j, zzchi2=np.zeros((n, 5)) + np.array([[r[0]] for r in rows]),
                        coeff=np.array([[100. * j + r[0] + 0.01 * q for q in range(nb)] for r in rows]),
                        fitmethod=np.array([[template.method]] * n), npixels=np.array([[npx[target.id]]] * n))

        def fake_scan(targets, tmpl, *a, **k):
            return {t.id: {m.template.full_type: dict(redshifts=m.template.redshifts, zchi2=np.ones(3), penalty=np.zeros(3),
                    zcoeff=np.zeros((3, m.template.nbasis))) for m in tmpl} for t in tg}
        old = Z.fitz, Z.calc_zchi2_targets
        Z.fitz, Z.calc_zchi2_targets = fake_fitz, fake_scan
        try:
            with core.quiet():
                scan, tab = Z.zfind(dt, dtm, nminima=c['nmin'])
        finally:
            Z.fitz, Z.calc_zchi2_targets = old
        if len(calls) == 0:
            raise core.Skip('zfind does not call redrock.zfind.fitz')
        if set(tab['targetid']) != set(ids) or [int(x) for x in dict.fromkeys(tab['targetid'])] != [int(x) for x in dt.all_target_ids]:
            raise core.Violation('targets', 'rows are missing or in another order than the targets')
        maxw = max(t.template.nbasis for t in dtm)
        T = {col: np.asarray(tab[col]) for col in tab.colnames}
        start = {}
        for i, tid in enumerate(T['targetid']):
            start.setdefault(int(tid), []).append(i)
        for tid in ids:
            with rec.case(dict(c, cand=byid[tid], tid=tid)):
                check_rows(rec, c, names, byid[tid], npx[tid], {k: v[start[tid]] for k, v in T.items()}, tid, maxw, ZW, start[tid])
                rec.ev()
                if sum(map(len, byid[tid])) > 1:
                    rec.nontrivial('z', names, c['nmin'], npx[tid], byid[tid])
            if rec.viol:
                return


def check_rows(rec, c, names, combo, npix, rows, tid, maxw, ZW, idx):
    if idx != list(range(idx[0], idx[0] + len(idx))):
        raise core.Violation('grouped', f'rows of target {tid} are not together: {idx}')
    allc = []
    for j, k in enumerate(names):
        sp, su, nb = TYPES[k]
        for chi, z, zw in combo[j]:
            zw |= (ZW.NODATA if npix == 0 else 0) | (ZW.LITTLE_COVERAGE if npix < 10 * nb else 0)
            allc.append((bad(zw), float(chi), z, zw, sp, su, nb, j))
    want = 0
    for sp in {a[4] for a in allc}:
        want += min(c['nmin'], sum(a[4] == sp for a in allc))
    n = len(rows['chi2'])
    tag = f'candidates {combo} npixels {npix}:'
    if n != want:
        raise core.Violation('count', f'{tag} {n} rows, expected {want}')
    if list(rows['znum']) != list(range(n)):
        raise core.Violation('znum', f'{tag} {list(rows["znum"])}')
    left = list(allc)
    last = None
    got = []
    for i in range(n):
        zw = int(rows['zwarn'][i])
        hit = [a for a in left if a[1] == rows['chi2'][i] and a[2] == rows['z'][i] and a[4] == str(rows['spectype'][i]) and a[5] == str(rows['subtype'][i])
               and a[3] == zw & ~ZW.SMALL_DELTA_CHI2]
        if not hit:
            raise core.Violation('row', f'{tag} row {i} (z={rows["z"][i]} chi2={rows["chi2"][i]} {rows["spectype"][i]} {rows["subtype"][i]} zwarn={zw}) is none of the remaining {left}')
        a = hit[0]
        left.remove(a)
        j, nb = a[7], a[6]
        if last is not None and (a[0], a[1]) < last:
            raise core.Violation('sorted', f'{tag} row {i} {(a[0], a[1])} after {last}')
        last = (a[0], a[1])
        cf = [100. * j + a[1] + 0.01 * q for q in range(nb)] + [0.] * (maxw - nb)
        gc = np.atleast_1d(rows['coeff'][i])
        if len(gc) > len(cf):
            cf += [0.] * (len(gc) - len(cf))
        if not np.allclose(gc, cf[:len(gc)]) or any(cf[len(gc):]):
            raise core.Violation('coeff', f'{tag} row {i} coefficients {gc}, expected {cf}')
        if rows['ncoeff'][i] != nb or rows['npixels'][i] != npix or abs(rows['zerr'][i] - 0.001 * (j + 1)) > 1e-12 or not np.all(rows['zz'][i] == j):
            raise core.Violation('columns', f'{tag} row {i}: ncoeff {rows["ncoeff"][i]} npixels {rows["npixels"][i]} zerr {rows["zerr"][i]}')
        if rows['RA'][i] != tid * 0.5 or str(rows['BRICK'][i]) != f'b{tid}':
            raise core.Violation('meta', f'{tag} metadata of another target')
        if zw >> 16:
            raise core.Violation('reserved', f'{tag} reserved bits set: {zw}')
        got.append(a)
    # kept candidates are the best ones of each type
    for a in left:
        worst = max(((b[0], b[1]) for b in got if b[4] == a[4]), default=None)
        if worst is None or (a[0], a[1]) < worst:
            raise core.Violation('trimmed', f'{tag} {a} was dropped but {worst} kept')
    lim = [oracle.dvlimit(a[4]) for a in got]
    d, s = expected_delta([a[1] for a in got], [a[2] for a in got], [a[3] for a in got], lim)
    if not np.allclose(rows['deltachi2'], d, rtol=0, atol=1e-9):
        raise core.Violation('deltachi2', f'{tag} deltachi2 {list(rows["deltachi2"])}, expected {d} for {got}')
    sd = [bool(int(x) & ZW.SMALL_DELTA_CHI2) for x in rows['zwarn']]
    if sd != s:
        raise core.Violation('small-deltachi2', f'{tag} SMALL_DELTA_CHI2 {sd}, expected {s} for {got}')
    if any(s):
        rec.count('small_deltachi2')


def run_real(rec, c):
    """Real scans and refinements end to end: the same contract on the table."""
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    import redrock.fitz as F
    ZW = bits()
    tmpl = [fix.mk_template(*TYPES[k][:2], nbasis=TYPES[k][2], zmin=c['zr'][0], zmax=c['zr'][1], nz=c['nz'], key='c07r') for k in c['templates']]
    tg = [fix.mk_target(k, bands=c['bands'], mask=m, key=('c07', k), z=0.02 * k, amp=a, nspec=c['nspec'], coadd=False)
          for k, (m, a) in enumerate(itertools.product(('none', 'some', 'few', 'all'), (0.0, 0.3, 1.0)))]
    for t in tg:                    # unmasked pixels without flux are pixels, too
        for s in t.spectra:
            s.flux[t.id % 3::4] = 0.
    dt = DistTargetsCopy(tg)
    kw = {}
    if c.get('arch'):
        from checks import c18
        kw = dict(archetypes=c18.archetypes(c['arch'], False), ncamera=len(c['bands']), **c['opts'])
    with core.quiet():
        scan, tab = zfind(dt, [DistTemplate(t, dt.wavegrids()) for t in tmpl], nminima=c['nmin'], **kw)
    for t in tg:
        rows = tab[tab['targetid'] == t.id]
        rec.ev()
        n = len(rows)
        if n == 0 or list(rows['znum']) != list(range(n)):
            raise core.Violation('real-znum', f'{t.id}: {list(rows["znum"])}')
        for sp in set(rows['spectype']):
            if np.sum(rows['spectype'] == sp) > c['nmin']:
                raise core.Violation('real-count', f'{t.id} {sp}')
        npix = sum(int((s.ivar > 0).sum()) for s in t.spectra)
        zw = [int(x) for x in rows['zwarn']]
        key = [(bad(w), float(x)) for w, x in zip(zw, rows['chi2'])]
        if key != sorted(key):
            raise core.Violation('real-sorted', f'{t.id}: {key}')
        lim = [oracle.dvlimit(sp) for sp in rows['spectype']]
        d, s = expected_delta(list(rows['chi2']), list(rows['z']), zw, lim)
        if not np.allclose(rows['deltachi2'], d) or [bool(w & ZW.SMALL_DELTA_CHI2) for w in zw] != s:
            raise core.Violation('real-deltachi2', f'{t.id}: {list(rows["deltachi2"])} {zw}, expected {d} {s}')
        sep = [abs(dv(a, b)) for a, b in itertools.combinations(rows['z'][rows['spectype'] == 'STAR'], 2)]
        if any(oracle.dvlimit('STAR') < x < oracle.dvlimit('GALAXY') for x in sep):
            rec.count('close_stars')
        for i in range(n):
            nb = int(rows['ncoeff'][i]) if c.get('arch') else [x.nbasis for x in tmpl if x.template_type == rows['spectype'][i] and x.sub_type == rows['subtype'][i]][0]
            if rows['npixels'][i] != npix or rows['ncoeff'][i] != nb:
                raise core.Violation('real-npixels', f'{t.id}: npixels {rows["npixels"][i]} of {npix}, ncoeff {rows["ncoeff"][i]} of {nb}')
            if bool(zw[i] & ZW.NODATA) != (npix == 0) or bool(zw[i] & ZW.LITTLE_COVERAGE) != (npix < 10 * nb) or zw[i] >> 16:
                raise core.Violation('real-bits', f'{t.id}: zwarn {zw[i]} with {npix} pixels and {nb} coefficients')
        rec.nontrivial('r', c, t.id)


def dispatch(rec, c):
    with rec.case(c):
        dict(codes=run_codes, delta=run_delta, zfind=run_zfind, real=run_real)[c['k']](rec, c)


def make():
    return core.Check('C07', 'exploration',
        rule='every table of candidates (chi2 with ties, redshifts straddling both limits, warning bits) of 1-4 rows for deltachi2, every combination of candidates of several templates through the real zfind, and real end-to-end fits; non-trivial: more than one candidate',
        assumptions=['redshift differences are not within rounding of the velocity limit', 'the order of exactly equal fits is free'],
        explanation='bounded-exhaustive enumeration of candidate tables through the real table-building code against the ranking contract')


def run(ck):
    ZW = bits()
    T = ck.thorough
    items = []
    items.append(dict(k='codes'))
    CH = (0., 5., 8.9, 9.1, 20.)
    for zw0 in ((0, ZW.BAD_MINFIT), (0, ZW.SMALL_DELTA_CHI2, ZW.Z_FITLIMIT), (ZW.NODATA, ZW.LITTLE_COVERAGE, ZW.NEGATIVE_MODEL), (ZW.POORDATA, ZW.MANY_OUTLIERS, ZW.NEGATIVE_EMISSION)):
        for chi0 in range(len(CH)):
            ch = CH if chi0 == 0 else CH[chi0:]
            if chi0:
                continue
            for zs in ((0.1, 0.1002, 0.102), (0.1, 0.1005, 0.2), (2.0, 2.0005, 2.02), (-0.001, 0.0, 0.0025)):
                for n in (1, 2, 3):
                    items.append(dict(k='delta', n=n, zw=zw0, z=zs, chi2=ch if n < 3 or len(zw0) < 3 or T else ch[::2]))
    for zs in ((0.1, 0.102), (0.1, 0.1005)):
        items.append(dict(k='delta', n=4, zw=(0, ZW.BAD_MINFIT), z=zs, chi2=(0., 8.9, 20.)))
        if T:
            items.append(dict(k='delta', n=5, zw=(0, ZW.Z_FITLIMIT), z=zs, chi2=(0., 5., 9.5)))
            items.append(dict(k='delta', n=4, zw=(0, 4, ZW.Z_FITLIMIT), z=zs + (0.3,), chi2=(0., 5., 9.5)))
    c1 = [(10., 0.1, 0), (10., 0.2, 0), (15., 0.1005, 0), (30., 0.1002, 0), (8., 0.1, ZW.BAD_MINFIT), (12., 0.15, ZW.Z_FITLIMIT), (20., 0.2005, ZW.NEGATIVE_MODEL | ZW.POORDATA)]
    c2 = [(10., 0.1, 0), (14., 0.1005, 0), (30., 0.2, 0), (5., 0.3, ZW.BAD_MINFIT)]
    for names, cc, mx, nb in ((('G', 'Q'), c1, 2, 2), (('SA', 'SB'), c1, 2, 2), (('Q', 'Q2'), c1, 2, 2), (('S', 'G'), c1, 2, 2),
                              (('SA', 'G', 'SB'), c2, 2, 4), (('SB', 'Q', 'G'), c2, 2, 4), (('G', 'SA', 'SB', 'Q'), c2[:3], 1, 2), (('G',), c1, 5, 1),
                              (('Q2', 'SB', 'Q', 'SA'), c2[1:], 1, 2), (('SB', 'L', 'Q', 'G'), c2[1:], 1, 2)):
        for nmin in (1, 2, 3) if not T else (1, 2, 3, 4):
            for b in range(nb):
                items.append(dict(k='zfind', templates=names, cands=cc if not T or len(names) > 2 else c1 + [(10., 0.1, 4), (19.5, 0.1, 0)], maxc=mx, nmin=nmin, blk=b, nblk=nb,
                                  npix=[200, 0, 15, 29, 30, 5], order='rev' if nmin % 2 else 'fwd'))
    for names in (('G',), ('G', 'Q'), ('SA', 'SB', 'G'), ('Q', 'Q2', 'S')):
        for nmin in (1, 3):
            for zr, nz in (((0.0, 0.3), 10), ((0.0, 0.02), 12)):
                items.append(dict(k='real', templates=names, zr=zr, nz=nz, nmin=nmin, bands='br', nspec=1))
    for names, arch in ((('S', 'G'), 'S'), (('SA', 'SB', 'G'), 'GS'), (('G', 'SB'), 'GS'), (('SA', 'Q'), 'QS'), (('S', 'G'), None)):
        for o in (dict(per_camera=False, deg_legendre=1), dict(per_camera=True, deg_legendre=1, n_nearest=2, prior_sigma=0.1)):
            if arch or not o['per_camera']:
                items.append(dict(k='real', templates=names, zr=(0.0, 0.02), nz=60, nmin=3, bands='br', nspec=1, arch=arch, opts=o))
    items.sort(key=lambda c: -c.get('n', 0))
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    if case['k'] == 'delta' and 'zw1' in case:
        from redrock import zfind as Z
        with rec.case(case):
            d, s = Z.calc_deltachi2(np.array(case['chi1']), np.array(case['z1']), np.array(case['zw1']), dvlimit=np.array(case['lim1']))
            ed, es = expected_delta(case['chi1'], case['z1'], case['zw1'], case['lim1'])
            if not np.allclose(d, ed) or list(map(bool, s)) != es:
                raise core.Violation('deltachi2', f'got {list(d)} {list(s)}, expected {ed} {es}')
    else:
        dispatch(rec, case)
