"""C06: saved results read back unchanged."""
import itertools, os, tempfile
import numpy as np
from mc import core, fix

F4 = ['zerr', 'chi2', 'zz', 'zzchi2', 'coeff', 'deltachi2']
INT = dict(zwarn=np.int32, npixels=np.int32, znum=np.int8, ncoeff=np.int8)
SCAN = ('zchi2', 'penalty', 'zcoeff', 'redshifts')


def stored(name, a):
    """The precision a column is documented to be stored with."""
    a = np.asarray(a)
    if name in F4:
        with np.errstate(over='ignore'):
            return a.astype(np.float32)
    if name in INT:
        return a.astype(INT[name])
    return a


def same(a, b):
    a, b = (x.astype(str) if x.dtype.kind == 'S' else x for x in (np.asarray(a), np.asarray(b)))
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'SU' or b.dtype.kind in 'SU':
        return [str(x) for x in a.ravel()] == [str(x) for x in b.ravel()]
    return np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')


def check_read(rec, c, path, scan, zfit, ids, subsets, keycols):
    from redrock import results
    order = list(dict.fromkeys(int(t) for t in zfit['targetid']))
    if sorted(order) != sorted(ids):
        raise core.MCError('table')

    def check_zfit(tab, want, upper, how):
        rec.ev()
        nm = (lambda x: x.upper()) if upper else (lambda x: x)
        exp = [int(t) for w in want for t in zfit['targetid'][zfit['targetid'] == w]]
        if [int(t) for t in tab[nm('targetid')]] != exp:
            raise core.Violation('rows', f'{how}: rows of targets {[int(t) for t in tab[nm("targetid")]]}, expected {exp}')
        if sorted(tab.colnames) != sorted(nm(x) for x in zfit.colnames):
            raise core.Violation('columns', f'{how}: columns {tab.colnames}')
        for t in want:
            a, b = zfit[zfit['targetid'] == t], tab[tab[nm('targetid')] == t]
            b = b[:len(a)]
            for col in zfit.colnames:
                if not same(stored(col, a[col]), b[nm(col)]):
                    raise core.Violation('zfit-' + col, f'{how}: column {col} of target {t}: {b[nm(col)]} written {a[col]}')
        rec.nontrivial('zfit', tuple(want), upper, len(zfit))

    def check_scan(s, want, how):
        rec.ev()
        if sorted(int(t) for t in s) != sorted(set(want)):
            raise core.Violation('scan-targets', f'{how}: {sorted(int(t) for t in s)}, expected {sorted(set(want))}')
        for t in s:
            fts = [k for k in scan[t] if k != 'meta']
            if sorted(s[t]) != sorted(fts):
                raise core.Violation('scan-types', f'{how}: {sorted(s[t])} of {sorted(fts)}')
            for ft in fts:
                for k in SCAN:
                    w = np.asarray(scan[t][ft][k])
                    with np.errstate(over='ignore'):
                        w = w if k == 'redshifts' else w.astype(np.float32)
                    if not same(w, s[t][ft][k]):
                        raise core.Violation('scan-' + k, f'{how}: {k} of target {t} {ft}: {s[t][ft][k]} written {scan[t][ft][k]}')
        rec.nontrivial('scan', tuple(want), len(scan))

    for sub in subsets:
        if sub is None:
            arg, want = None, order
        elif sub[0] == 'scalar':
            arg, want = sub[1], [sub[1]]
        elif sub[0] == 'npscalar':
            arg, want = np.int64(sub[1]), [sub[1]]
        elif sub[0] == 'array':
            arg, want = np.array(sub[1]), list(sub[1])
        else:
            arg, want = list(sub[1]), list(sub[1])
        for upper in (False, True):
            how = f'select {sub} upper={upper}'
            check_zfit(results.read_zfit(path, select_targetids=arg, upper=upper), want, upper, how)
            s, z = results.read_zscan(path, select_targetids=arg, upper=upper)
            check_zfit(z, want, upper, how)
            check_scan(s, want, how)
            # per template rows
            nm = (lambda x: x.upper()) if upper else (lambda x: x)
            for t in s:
                mine = zfit[zfit['targetid'] == t]
                for ft in s[t]:
                    from redrock.templates import parse_fulltype
                    st, su = parse_fulltype(ft)
                    w = mine[(np.asarray(mine[keycols[0]]).astype(str) == st) & (np.asarray(mine[keycols[1]]).astype(str) == su)]
                    if (len(w) > 0) != ('zfit' in s[t][ft]):
                        raise core.Violation('template-rows', f'{how}: target {t} {ft} has {len(w)} rows, zfit {"zfit" in s[t][ft]}')
                    if len(w):
                        g = s[t][ft]['zfit']
                        n = len(w) if sub is None or len(set(want)) == len(want) else len(g)
                        if n != len(g) or not set(np.asarray(g[nm('znum')]).tolist()) == set(np.asarray(w['znum']).tolist()) or np.any(g[nm('targetid')] != t):
                            raise core.Violation('template-rows', f'{how}: target {t} {ft}: rows {list(g[nm("znum")])} written {list(w["znum"])}')
                        for znum in w['znum']:
                            if not same(stored('chi2', w['chi2'][w['znum'] == znum]), g[nm('chi2')][g[nm('znum')] == znum][:1]):
                                raise core.Violation('template-rows', f'{how}: target {t} {ft} row {znum}')
        check_scan(results.read_zscan(path, select_targetids=arg, nozfit=True), want, f'select {sub} nozfit')
    r = results.read_zscan_redrock(path)
    check_scan(r, order, 'read_zscan_redrock')


def subsets_of(ids, L, k=0):
    out = [None]
    for n in range(1, L + 1):
        for s in itertools.permutations(ids, n):
            out.append((('list', 'array')[(n + k) % 2], list(s)))
    out.append(('scalar', ids[-1]))
    out.append(('npscalar', ids[0]))
    return out


# ---------------------------------------------------------------- synthetic contents
VAL = [0., -1.5, 1e-40, 3.4e38, 1e39, np.inf, -np.inf, np.nan, 1 / 3., 9e99, 16777217.]
IDS = [39627000000000006, 39627000000000005, -7, 2 ** 62 + 1]


def synth(c):
    from astropy.table import Table
    fts = c['types']
    ids = [IDS[k] for k in c['ids']]
    scan, rows = {}, []
    v = c['v']

    def val(*k):
        h = fix.hash_int(k)
        return VAL[(h + v) % len(VAL)] if h % 3 == 0 else float(h % 1000) / 7.
    for t in ids:
        scan[t] = {}
        for q, ft in enumerate(fts):
            nz, nc = 2 + q, 1 + (q + c['v']) % 3
            scan[t][ft] = dict(redshifts=np.array([0.1 * k + 1 / 3. + q for k in range(nz)]), zchi2=np.array([val(t, ft, k) for k in range(nz)]), penalty=np.array([val(t, ft, k, 'p') for k in range(nz)]),
                               zcoeff=np.array([[val(t, ft, k, j) for j in range(nc)] for k in range(nz)]))
    from redrock.templates import parse_fulltype
    for i, t in enumerate(ids):
        n = c['nrows'][i % len(c['nrows'])]
        for z in range(n):
            st, su = parse_fulltype(fts[(z + i) % len(fts)])
            rows.append(dict(targetid=t, z=0.1234567890123 * (z + 1) + i, zerr=val(t, z, 'e'), zwarn=(0, 1 << 30, 515, 2 ** 31 - 1)[(z + v) % 4], chi2=float(z) * 10 + i + 1 / 3., zz=[val(t, z, 'zz', k) for k in range(3)],
                             zzchi2=[val(t, z, 'zc', k) for k in range(3)], coeff=[val(t, z, 'c', k) for k in range(c['ncoeff'])], fitmethod='PCA', npixels=70000 + z, spectype=st, subtype=su, ncoeff=c['ncoeff'], znum=z, deltachi2=val(t, z, 'd')))
    if c.get('interleave'):
        rows.sort(key=lambda r: (r['znum'], ids.index(r['targetid'])))
    tab = Table({k: np.array([r[k] for r in rows]) for k in rows[0]})
    if c.get('meta'):
        tab['BRICKNAME'] = np.array([f'b{r["targetid"] % 1000}' for r in rows], dtype='S8')
        tab['INTMETA'] = np.array([r['targetid'] for r in rows])
    return ids, scan, tab


def run_synth(rec, c):
    from redrock import results
    ids, scan, tab = synth(c)
    with tempfile.TemporaryDirectory(prefix='c06') as d:
        p = os.path.join(d, 'sub', 'x.h5') if c.get('sub') else os.path.join(d, 'x.h5')
        fn = p
        if c.get('env'):
            os.environ['C06_DIR'] = os.path.dirname(p)
            fn = '$C06_DIR/x.h5'
        before = (tab.copy(), {t: {f: {k: x.copy() for k, x in s.items()} for f, s in m.items()} for t, m in scan.items()})
        for o in c.get('over', ()):
            i2, s2, t2 = synth(dict(c, v=c['v'] + 1 + o, ids=c['ids'][:1] if o else c['ids']))
            with core.quiet():
                results.write_zscan(fn, s2, t2, clobber=bool(o))
        with core.quiet():
            results.write_zscan(fn, scan, tab, clobber=c.get('clobber', True))
        if sorted(os.listdir(os.path.dirname(p))) != ['x.h5']:
            raise core.Violation('leftover', f'{os.listdir(os.path.dirname(p))}')
        # the caller's results are not modified
        if before[0].colnames != tab.colnames or any(not same(before[0][k], tab[k]) or before[0][k].dtype != tab[k].dtype for k in tab.colnames):
            raise core.Violation('modified', 'writing modifies the table')
        with core.quiet():
            check_read(rec, c, fn, before[1], before[0], ids, subsets_of(ids, 3 if len(ids) > 1 else 1, c['v']), ('spectype', 'subtype'))


# ---------------------------------------------------------------- real fits, restart
def mk(c, d):
    from redrock.archetypes import All_archetypes
    from checks.c16 import mk as mkt
    tm = [mkt(k, dict(zr=(0.0, 0.25))) for k in c['templates']]
    tg = [fix.mk_target(i, bands=c['bands'], nspec=c['nspec'], mask=m, key=('c06', i), z=0.1, amp=a, coadd=c['coadd'], csr=True, meta=dict(M=i, M_datatype='i8'))
          for i, m, a in [(5, 'none', 1.), (2 ** 61 + 3, 'some', .5), (2 ** 61 + 4, 'all', 1.), (9, 'band0', -.2)][:c['n']]]
    kw = {}
    if c.get('arch'):
        for a in c['arch']:
            fix.mk_archetypes(os.path.join(d, f'rrarchetype-{a.lower()}.fits'), a, n=3, loglam=False, wmin=900., nw=500, key=a)
        with core.quiet():
            arch = All_archetypes(archetypes_dir=d).archetypes
        kw = dict(archetypes=arch, deg_legendre=c['deg'], per_camera=c['percam'], n_nearest=c.get('nn'), prior_sigma=0.1 if c['deg'] and c['percam'] else None, ncamera=len(c['bands']))
    return tm, tg, kw


def fit(tm, tg, kw, mp=1, **k2):
    from redrock.targets import DistTargetsCopy
    from redrock.templates import DistTemplate
    from redrock.zfind import zfind
    dt = DistTargetsCopy(tg)
    with core.quiet():
        return zfind(dt, [DistTemplate(t, dt.wavegrids(), mp_procs=mp) for t in tm], mp_procs=mp, **kw, **k2)


def run_fit(rec, c):
    from redrock import results
    with tempfile.TemporaryDirectory(prefix='c06') as d:
        tm, tg, kw = mk(c, d)
        pr = {}
        if c.get('prior'):
            from astropy.io import fits
            from astropy.table import Table
            t = Table(dict(TARGETID=[g.id for g in tg], FUNCTION=['gaussian'] * len(tg), Z=[0.12] * len(tg), SIGMA=[0.05] * len(tg)))
            t.meta['EXTNAME'] = 'PRIORS'
            t.write(os.path.join(d, 'priors.fits'))
            pr = dict(priors=os.path.join(d, 'priors.fits'))
        scan, tab = fit(tm, tg, kw, nminima=c['nmin'], **pr)
        if c.get('reset'):
            # as for bad DESI fibers
            tab['spectype'][tab['targetid'] == tg[0].id] = 'GALAXY'
            tab['subtype'][tab['targetid'] == tg[0].id] = ''
        p = os.path.join(d, 'x.h5')
        with core.quiet():
            results.write_zscan(p, scan, tab, clobber=True)
        ids = [t.id for t in tg]
        with core.quiet():
            kc = ('pca_spectype', 'pca_subtype') if 'pca_spectype' in tab.colnames else ('spectype', 'subtype')
            check_read(rec, c, p, scan, tab, ids, subsets_of(ids, 2), kc)
        if c.get('reset'):
            return
        # restart for every ordered subset of targets
        for n in range(1, len(tg) + 1):
            for sub in itertools.permutations(range(len(tg)), n):
                if n > 2 and sub[0] != c['nmin'] % 3:
                    continue
                g2 = mk(c, d)[1]
                s2, t2 = fit(tm, [g2[k] for k in sub], kw, nminima=c['nmin'], chi2_scan=p)
                rec.ev()
                full = {t: tab[tab['targetid'] == t] for t in ids}
                if list(dict.fromkeys(int(t) for t in t2['targetid'])) != [ids[k] for k in sub]:
                    raise core.Violation('restart-targets', f'{list(t2["targetid"])} of {[ids[k] for k in sub]}')
                for k in sub:
                    if pr and not any(s.ivar.any() for s in tg[k].spectra):
                        continue    # the huge-chi2 marker plus a prior exceeds the precision of the file
                    a, b = full[ids[k]], t2[t2['targetid'] == ids[k]]
                    cmp_tables(a, b, f'restart with targets {sub}, target {ids[k]}')
                    for ft in scan[ids[k]]:
                        if not np.allclose(np.asarray(s2[ids[k]][ft]['zchi2'], float), stored('chi2', scan[ids[k]][ft]['zchi2']), rtol=1e-6, equal_nan=True):
                            raise core.Violation('restart-scan', f'scan of target {ids[k]}')
                rec.nontrivial('restart', sub, str(sorted(c.items())))
        s2, t2 = fit(tm, mk(c, d)[1], kw, nminima=c['nmin'], chi2_scan=p, mp=2)
        rec.ev()
        nd = [t.id for t in tg if pr and not any(s.ivar.any() for s in t.spectra)]
        cmp_tables(tab[~np.isin(tab['targetid'], nd)], t2[~np.isin(t2['targetid'], nd)], 'restart with two processes')


def cmp_tables(a, b, what):
    if len(a) != len(b):
        raise core.Violation('restart-rows', f'{what}: {len(b)} rows of {len(a)}')
    for col in a.colnames:
        if col not in b.colnames:
            raise core.Violation('restart-columns', f'{what}: no column {col}')
        x, y = np.asarray(a[col]), np.asarray(b[col])
        if x.dtype.kind in 'SU':
            ok = [str(v) for v in x] == [str(v) for v in y]
        else:
            n = min(x.shape[-1], y.shape[-1]) if x.ndim > 1 else None   # coefficients can be padded differently
            x, y = (x[..., :n], y[..., :n]) if x.ndim > 1 else (x, y)
            ok = x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-8, equal_nan=True)
        if not ok:
            raise core.Violation('restart-' + col, f'{what}: {col} {y} was {x}')


# ---------------------------------------------------------------- catalogues
def run_cat(rec, c):
    from astropy.table import Table
    from astropy.io import fits
    ids, scan, tab = synth(c)
    zb = tab[tab['znum'] == 0]
    zb.remove_columns(['zz', 'zzchi2', 'znum'])
    for n in list(zb.colnames):
        if n.islower():
            zb.rename_column(n, n.upper())
    want = zb.copy()
    from checks.c16 import mk as mkt
    tm = {t.full_type: t for t in (mkt(k, dict(zr=(0.0, 0.25))) for k in 'GA')}
    for t in tm.values():
        t._filename, t._version = f'rrtemplate-{t.full_type}.fits', '1.2'
    with tempfile.TemporaryDirectory(prefix='c06') as d:
        p = os.path.join(d, 'new', 'z.fits')
        fn = p
        if c.get('env'):
            os.environ['C06_DIR'] = d
            fn = '$C06_DIR/new/z.fits'
        if c['which'] == 'boss':
            from redrock.external.boss import write_zbest
            os.mkdir(os.path.join(d, 'new'))
            for o in range(2):
                with core.quiet():
                    write_zbest(fn, zb, {k: '1.2' for k in tm}, None)
            ext = 'ZBEST'
        else:
            from redrock.external.desi import write_zbest
            fm = Table(dict(TARGETID=list(want['TARGETID']), OBJTYPE=['TGT'] * len(want)))
            ex = Table(dict(TARGETID=list(want['TARGETID']) * 2, EXPID=np.arange(2 * len(want))))
            ts = Table(dict(TARGETID=list(want['TARGETID']), TSNR2_X=np.arange(len(want)) / 3.))
            fm0, ex0, ts0 = fm.copy(), ex.copy(), ts.copy()
            for o in range(2):
                with core.quiet():
                    write_zbest(fn, zb, fm, ex, ts, tm)
            ext = 'REDSHIFTS'
            for n, t in (('FIBERMAP', fm0), ('EXP_FIBERMAP', ex0), ('TSNR2', ts0)):
                got = Table.read(p, n)
                rec.ev()
                if got.colnames != t.colnames or any(not same(got[k], t[k]) for k in t.colnames):
                    raise core.Violation('catalogue-' + n, f'table {n} reads back differently')
        if os.listdir(os.path.join(d, 'new')) != ['z.fits']:
            raise core.Violation('leftover', f'{os.listdir(os.path.join(d, "new"))}')
        with fits.open(p) as h:
            data = h[ext].data
            rec.ev()
            if len(data) != len(want) or list(data.dtype.names) != want.colnames:
                raise core.Violation('catalogue', f'{len(data)} rows, columns {data.dtype.names}')
            for col in want.colnames:
                a, b = np.asarray(want[col]), np.asarray(data[col])
                if a.dtype.kind == 'S':
                    a = a.astype(str)
                if a.ndim > b.ndim:
                    b = b.reshape(a.shape)
                if not same(a, b):
                    raise core.Violation('catalogue-' + col, f'{col}: {b} written {a}')
        rec.nontrivial('cat', c['which'], str(sorted(c.items())))


def dispatch(rec, c):
    with rec.case(c):
        dict(synth=run_synth, fit=run_fit, cat=run_cat)[c['kind']](rec, c)


def make():
    return core.Check('C06', 'exploration',
        rule='synthetic results over template lists, target lists and orders, rows per target and special values (inf, nan, denormals, float32 overflow), overwriting histories, read for every ordered subset of up to 3 targets; real fits over templates, masks and archetype modes with restart for every ordered subset of targets',
        assumptions=['arrays are stored with the documented precision (float32 scan and fit columns, float64 redshifts)', 'a scan saved by a fit with priors includes them: restart is done without priors', 'targets without data in fits with priors are not compared after restart (the huge-chi2 marker plus a prior exceeds float32 precision)'],
        explanation='bounded-exhaustive enumeration of contents and of read selections through the real writers and readers, compared exactly with the contents written')


def run(ck):
    T = ck.thorough
    items = []
    TY = ['GALAXY', 'QSO:::LOZ', 'STAR:::A', 'STAR:::CV', 'QSO:::HIZ', 'GALAXY:::X_1']
    j = 0
    for nt in (1, 2, 3):
        for types in itertools.permutations(TY[:4] if not T else TY, nt):
            for nid in (1, 2, 3):
                perms = list(itertools.permutations(range(4), nid))
                for q, ids in enumerate(perms):
                    if not T and (q + j) % 7:
                        continue
                    j += 1
                    items.append(dict(kind='synth', types=list(types), ids=list(ids), v=j % 11, nrows=[(1,), (2, 1), (1, 3, 2), (3,)][j % 4], ncoeff=1 + j % 4, interleave=bool(j % 3 == 1), meta=bool(j % 2), env=bool(j % 5 == 0), sub=bool(j % 5 == 2 and j % 5 != 0), over=[(), (0,), (1,), (0, 1), ()][j % 5], clobber=bool(j % 7)))
    for j2, n in enumerate((10, 11, 128)):      # as many fits of one target as the stored numbers hold
        items.append(dict(kind='synth', types=TY[:1 + j2], ids=[2, 0][:2 - j2 // 2], v=j2, nrows=(n, 2), ncoeff=1 + 4 * j2, interleave=bool(j2), meta=True, env=False, sub=False, over=(), clobber=True))
    for c in [c for c in items if not c['interleave']][::3 if not T else 1]:
        for w in ('boss', 'desi'):
            items.append(dict(c, kind='cat', which=w))
    for tpl in ('G', 'GQ', 'ABN', 'QGA'):
        for bands, ns, co in (('br', 1, False), ('rzb', (1, 2, 1), True)):
            for n in (1, 2, 4):
                j += 1
                items.append(dict(kind='fit', templates=tpl, bands=bands, nspec=ns, coadd=co, n=n, nmin=1 + j % 3, prior=bool(j % 2)))
    for tpl in ('Q', 'AQ', 'G'):
        items.append(dict(kind='fit', templates=tpl, bands='br', nspec=1, coadd=False, n=3, nmin=2, reset=True))
    for tpl, arch in (('G', ['GALAXY']), ('GA', ['GALAXY']), ('QGA', ['GALAXY', 'STAR']), ('GQ', ['GALAXY', 'QSO'])):
        for deg, pc in ((0, False), (1, True), (2, True), (2, False)):
            for nn in (None, 2):
                j += 1
                if not T and (deg and j % 2 and nn):
                    continue
                items.append(dict(kind='fit', templates=tpl, bands=('rb', 'b', 'zrb')[j % 3], nspec=1, coadd=False, n=2 if not T else 4, nmin=2, arch=arch, deg=deg, percam=pc, nn=nn))
    items.sort(key=lambda c: c['kind'] != 'fit')
    core.pmap(items, dispatch, ck, timeout=800)


def replay(rec, case):
    dispatch(rec, case)
